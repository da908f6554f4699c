"""Runs are independent of earlier runs: histories of runs and changes."""
from . import runs as P
from ..adapters.run import Run


def run(ctx):
    n = 1 if ctx.quick else 10
    need = ["set", "own", "cb", "addsweep", "editsweep", "combsweep", "dropsweep", "joinsweep", "dropsys", "tdf", "tds", "run", "finish"]
    P.histories(ctx, "everything changes", {}, Run, need, 200 * n, 500, ctx.seed)
    P.histories(ctx, "from nothing", {"Start0": "bare"}, Run, need + ["addpro"], 200 * n, 300, ctx.seed + 1)
