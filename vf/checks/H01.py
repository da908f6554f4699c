"""Copies of systems and arithmetic with systems."""
from .. import tlc, replay
from ..adapters.copies import Copies, Full

INV, PROP = ["OneParent", "Own", "CopyIsEqual"], ["Independent"]


def run(ctx):
    q = ctx.quick
    need = ["new", "copy", "plus", "times", "minus", "term", "couple", "freq", "oper", "drop", "timed", "dim", "input"]
    res = tlc.run("Copies", {"Acts": {"new", "copy", "plus", "times", "minus", "couple"} , "SIM": False, "MaxN": 3 if q else 4, "MaxD": 8, "MaxT": 1, "Dims": {2}, "Freqs": {1, 2} if q else {1}, "Ops": {"number"}, "Ords": {1},
                             "Kinds": {"cav"} if q else {"cav", "undec"}}, view="V", invariants=INV, properties=PROP)
    ctx.model("Copies (exhaustive)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover", Full, w, need=["new", "copy", "plus", "times", "minus", "couple"])
    res = tlc.run("Copies", {"Acts": set(need), "SIM": True, "MaxN": 16, "MaxD": 40, "MaxT": 3, "Dims": {2, 3}, "Freqs": {1, 2, 3, 100, 101},
                             "Ops": {"number", "create", "Jx"}, "Ords": {1, 2}, "Kinds": {"cav", "qubit", "spin", "sys", "undec"}},
                  invariants=INV, properties=[], emit="state", simulate=500 if q else 6000, depth=30, seed=ctx.seed)
    ctx.model("Copies (random histories)", res)
    ctx.walks("random histories", Copies, replay.chains(res), need=need)
