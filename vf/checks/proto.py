"""Shared by C01, C02 and C03: instances of Proto.tla."""
from .. import tlc, replay
from ..adapters import proto

INV = ["Acyclic", "Complete", "AdjTwice"]
BASE = {"SIM": True, "NP": 2, "MaxSteps": 4, "Els": {1, 2, 3, 4}, "Ws": "<- WsAll", "Gs": "<- GsAll", "Angs": "<- AngsAll",
        "Phs": "<- PhsAll", "Ratios": "<- RatiosAll", "Dts": {1, 2, 3}, "Smps": {1, 2}, "Dims": {2, 3}, "Axes": {"x", "y", "z"},
        "Impls": {"none", "instant"}, "Own": set(), "MaxUpd": 0, "MaxFix": 0, "Keys": set()}
SMALL = dict(BASE, SIM=False, Els={1, 3}, NP=1, Ws={1}, Gs={1}, Angs={1, 2}, Phs={1}, Ratios={1, 2}, Dts={1, 2}, Smps={1}, Dims={2},
             Axes={"x"}, Impls={"none"}, MaxSteps=2)


def exhaustive(ctx, name, const, need, **attrs):
    c = dict(SMALL, **const)
    res = tlc.run("Proto", c, view="V", invariants=INV)
    ctx.model("Proto: %s (exhaustive)" % name, res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ad = type("A", (proto.Proto,), dict(dict(els=tuple(sorted(c["Els"])), NP=c["NP"]), **attrs))
    ctx.walks("transition cover: " + name, ad, w, need=need)


def histories(ctx, name, const, need, num, depth, seed, **attrs):
    c = dict(BASE, **const)
    res = tlc.run("Proto", c, invariants=INV, simulate=num, depth=depth, seed=seed)
    ctx.model("Proto: %s (random histories)" % name, res)
    ad = type("A", (proto.Proto,), dict(dict(els=tuple(sorted(c["Els"])), NP=c["NP"]), **attrs))
    ctx.walks("random histories: " + name, ad, replay.chains(res), need=need)
