"""Time-dependent parameters see the time of each step."""
from . import runs as P
from ..adapters.run import Run

Timed = type("Timed", (Run,), {"aspects": {"f", "cur", "times", "states", "after"}, "watch": {(0, "com"), (1, "com"), (2, "com"), (3, "com")}})


def run(ctx):
    n = 1 if ctx.quick else 10
    need = ["tdf", "tdx", "tds", "run", "call", "finish"]
    P.histories(ctx, "all protocols", {"Acts": {"tdf", "tdx", "tds", "set", "own"}}, Timed, need, 200 * n, 400, ctx.seed)
    P.histories(ctx, "with sweeps", {"Acts": {"tdf", "tdx", "tds", "sweep", "edit", "pro"}, "Start0": "bare", "Pools": {2}}, Timed, need + ["addsweep"],
                200 * n, 250, ctx.seed + 1)
