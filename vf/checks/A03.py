"""Containers of objects."""
from .. import tlc, replay
from ..adapters.subs import Subs

INV, PROP = ["NoRepetition"], ["OrderKept", "OthersUntouched"]


def run(ctx):
    q = ctx.quick
    need = ["add", "new", "remove", "unknown", "reset", "assign"]
    res = tlc.run("Subs", {"SIM": False, "Boxes": {"b"}, "MaxObj": 3 if q else 4, "MaxList": 2}, view="V", invariants=INV, properties=PROP)
    ctx.model("Subs (exhaustive)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover", Subs, w, need=need)
    res = tlc.run("Subs", {"SIM": True, "Boxes": {"b1", "b2"}, "MaxObj": 7, "MaxList": 4}, invariants=INV, properties=[],
                  simulate=600 if q else 8000, depth=40, seed=ctx.seed)
    ctx.model("Subs (random histories)", res)
    ctx.walks("random histories", Subs, replay.chains(res), need=need)
