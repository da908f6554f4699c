"""What a simulation evolves."""
from .. import tlc, replay
from ..adapters.sims import Sims

INV, PROP = ["Once", "HasSystem"], ["Independent", "OnlyRemoved"]


def run(ctx):
    q = ctx.quick
    need = ["sys", "new", "proto", "rmproto", "rmsys", "reset", "assign", "sweep", "use"]
    res = tlc.run("Sims", {"SIM": False, "Q": {"q1"}, "Protos": {11} if q else {11, 91}, "MaxSys": 2, "MaxSweeps": 1, "MaxList": 1},
                  view="V", invariants=INV, properties=PROP)
    ctx.model("Sims (exhaustive)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover", Sims, w, need=[x for x in need if x != "new"])
    res = tlc.run("Sims", {"SIM": True, "Q": {"q1", "q2"}, "Protos": {11, 12, 21, 91, 92}, "MaxSys": 4, "MaxSweeps": 3, "MaxList": 3},
                  invariants=INV, properties=[], simulate=400 if q else 6000, depth=35, seed=ctx.seed)
    ctx.model("Sims (random histories)", res)
    ctx.walks("random histories", Sims, replay.chains(res), need=need + ["protos"])
