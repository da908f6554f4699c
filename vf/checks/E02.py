"""Results and states are returned in the shape of the sweep grid."""
from . import runs as P
from .E01 import EX
from ..adapters.run import Run

Shapes = type("Shapes", (Run,), {"aspects": {"results", "states"}, "watch": set()})


def run(ctx):
    q = ctx.quick
    P.exhaustive(ctx, "all sweep shapes", dict(EX, MaxLen=2 if q else 3, MaxCost=8 if q else 27), Shapes, ["addsweep", "run", "finish"])
    n = 1 if q else 10
    P.histories(ctx, "results of all objects", {"Acts": {"sweep", "edit", "cb", "own", "pro"}, "MaxCost": 8}, Shapes,
                ["addsweep", "cb", "own", "run", "finish"], 200 * n, 400, ctx.seed)
    P.histories(ctx, "many sweeps", {"Acts": {"sweep", "edit", "cb", "pro"}, "Start0": "bare", "MaxCost": 24, "MaxSweeps": 5, "MaxLen": 4, "Pools": {2, 3}},
                Shapes, ["addsweep", "addpro", "run", "finish"], 100 * n, 300, ctx.seed + 1)
