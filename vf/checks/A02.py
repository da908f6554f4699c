"""Dictionaries keyed by names."""
from .. import tlc, replay
from ..adapters.dicts import Dicts

INV, PROP = ["OneEntry"], ["OthersKept"]


def run(ctx):
    q = ctx.quick
    need = ["alias", "set", "del", "pop", "setdefault", "copy", "clear"]
    res = tlc.run("Dict", {"SIM": False, "Objs": {"o1", "o2"}, "Plain": {"p"}, "Pool": {"x"} if q else {"x", "y"}, "Vals": {1, 2}, "MaxAls": 2},
                  view="V", invariants=INV, properties=PROP)
    ctx.model("Dict (exhaustive)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover", Dicts, w, need=need)
    res = tlc.run("Dict", {"SIM": True, "Objs": {"o1", "o2", "o3"}, "Plain": {"p", "q", "r", "t"}, "Pool": {"x", "y", "z", "w"}, "Vals": {1, 2, 3},
                           "MaxAls": 3}, invariants=INV, properties=[], simulate=600 if q else 8000, depth=40, seed=ctx.seed)
    ctx.model("Dict (random histories)", res)
    ctx.walks("random histories", Dicts, replay.chains(res), need=need + ["update"])
