"""A sweep visits every point of its grid exactly once, in order."""
from . import runs as P
from ..adapters.run import Run

Sweeps = type("Sweeps", (Run,), {"aspects": {"f", "after"}, "watch": {(0, "com")}})
EX = {"Homes": {"Q"}, "Acts": {"sweep"}, "Tgts": {"fA", "aux"}, "MaxLen": 2, "Ramp": True, "OneRun": True, "Start0": "ready"}


def run(ctx):
    q = ctx.quick
    P.exhaustive(ctx, "all sweep shapes", dict(EX, MaxLen=2 if q else 3, MaxCost=8 if q else 27, Homes={"Q"} if q else {"Q", "A"}), Sweeps,
                 ["addsweep", "run", "call", "finish"])
    n = 1 if q else 10
    need = ["addsweep", "editsweep", "combsweep", "dropsweep", "joinsweep", "dropsys", "run", "call", "finish"]
    P.histories(ctx, "sweeps, edited between runs", {"Acts": {"sweep", "edit"}, "Start0": "bare", "MaxCost": 16}, Sweeps, need, 300 * n, 250, ctx.seed)
    P.histories(ctx, "many sweeps", {"Acts": {"sweep", "edit", "set"}, "Start0": "bare", "MaxCost": 24, "MaxSweeps": 5, "MaxLen": 4}, Sweeps,
                need, 100 * n, 300, ctx.seed + 1)
