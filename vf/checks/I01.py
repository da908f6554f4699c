"""Open systems."""
from .. import tlc, replay
from ..adapters.opensys import Open, Full

INV, PROP = ["Acyclic", "Spreads", "Inherits", "Nothing"], ["Local"]
BASE = {"SIM": True, "Prots": {5, 8}, "MaxSteps": 3, "Els": {1, 2, 3, 4, 6, 7}, "MaxDs": 3, "Baths": 2, "Ws": {0, 1, 2}, "Gs": {0, 1, 2},
        "Angs": {1, 2, 3}, "Ratios": {1, 2}, "Dts": {1, 2, 3}, "Dims": {2, 3}, "Axes": {"x", "y", "z"}, "Rates": {1, 2, 3}, "Temps": {0, 1, 2},
        "OpsA": {"down", "up", "phase", "mix"}, "OpsB": {"down", "phase", "mix"}, "Typs": {0, 1}, "Runs": {1, 2, 3},
        "Acts": {"set", "new", "attach", "rate", "type", "op", "temp", "add", "remove", "del", "run"}}
SMALL = dict(BASE, SIM=False, Prots={5}, MaxSteps=2, Els={1, 2}, MaxDs=1, Baths=0, Ws={1}, Gs={1}, Ratios={1}, Dts={1, 2}, Dims={2}, Rates={1, 2},
             Temps={0}, OpsA={"down"}, OpsB=set(), Typs={1}, Runs={1}, Acts={"set", "new", "attach", "rate", "add", "remove"})


def run(ctx):
    q = ctx.quick
    c = SMALL if q else dict(SMALL, Temps={0, 1}, Acts=SMALL["Acts"] | {"temp"})
    res = tlc.run("Open", c, view="V", invariants=INV, properties=PROP)
    ctx.model("Open (exhaustive)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover", type("A", (Full,), {"els": tuple(c["Els"]), "prots": (5,)}), w, need=["set", "new", "attach", "rate", "add"])
    need = ["set", "ratio", "new", "attach", "rate", "type", "op", "tempds", "temp", "cf", "join", "add", "remove", "del", "run"]
    n = 1 if q else 12
    for name, num, ad, more in [("histories", 200, Open, {}), ("everything read", 45, Full, {}),
                                ("one protocol", 100, type("A", (Full,), {"prots": (5,), "els": (1, 2, 3)}),
                                 {"Prots": {5}, "Els": {1, 2, 3}, "MaxDs": 2, "Baths": 1, "Dims": {2}})]:
        res = tlc.run("Open", dict(BASE, **more), invariants=INV, emit="state", simulate=num * n, depth=30, seed=ctx.seed + len(name))
        ctx.model("Open (%s)" % name, res)
        ctx.walks("random " + name, ad, replay.chains(res), need=need)
