"""Initial states of nested systems and their protocols."""
from .. import tlc, replay
from ..adapters.states import States

INV, PROP = ["OneParent", "Full"], ["ListIsProduct", "OwnKept", "OthersKept"]


class Small(States):
    NL = 2


def run(ctx):
    q = ctx.quick
    need = ["set", "own", "bad", "setdim", "add", "remove"]
    res = tlc.run("State", {"SIM": False, "NL": 2, "NC": 2, "Dims": {2, 3}, "Idx": {1, 2}, "Kinds": {"idx"} if q else {"idx", "vec"},
                            "Extra": set()}, view="V", invariants=INV, properties=PROP)
    ctx.model("State (exhaustive)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover", Small, w, need=["set", "bad", "setdim", "add", "remove"])
    res = tlc.run("State", {"SIM": True, "NL": 3, "NC": 2, "Dims": {1, 2, 3}, "Idx": {0, 1, 2}, "Kinds": {"idx", "list", "pop", "amp", "vec"},
                            "Extra": {"own"}}, invariants=INV, properties=[],
                  simulate=600 if q else 8000, depth=30, seed=ctx.seed)
    ctx.model("State (random histories)", res)
    ctx.walks("random histories", States, replay.chains(res), need=need)
