"""Parallel runs give the same results as serial runs."""
import os
from . import runs as P
from ..adapters.run import Run

Para = type("Para", (Run,), {"aspects": {"results", "states", "after"}, "watch": set()})


def run(ctx):
    n = 1 if ctx.quick else 10
    c = {"Pools": {1, 2, 3, os.cpu_count() - 1} if ctx.quick else {1, 2, 3, 4, 5, 8, os.cpu_count() - 1}}
    P.histories(ctx, "everything changes", dict(c), Para, ["addsweep", "run", "finish"], 200 * n, 400, ctx.seed)
    P.histories(ctx, "sweeps", dict(c, Acts={"sweep", "edit"}, Start0="bare", MaxCost=20, MaxSweeps=4), Para, ["addsweep", "run", "finish"],
                200 * n, 250, ctx.seed + 1)
