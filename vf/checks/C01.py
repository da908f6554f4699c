"""Unitaries follow every parameter change."""
from . import proto as P


def run(ctx):
    q = ctx.quick
    P.exhaustive(ctx, "one protocol", {} if q else {"NP": 2}, ["set", "el", "add", "remove"])
    n = 1 if q else 12
    P.histories(ctx, "parameters", {"MaxSteps": 3}, ["set", "el", "add", "remove"], 550 * n, 24, ctx.seed)
    P.histories(ctx, "everything read", {"MaxSteps": 3}, ["set", "el", "add", "remove"], 120 * n, 24, ctx.seed + 1, sparse=1)
    P.histories(ctx, "own step sizes", {"MaxSteps": 3, "NP": 3, "Own": {1, 2, 5, 6, 7}}, ["set", "el", "add", "remove"], 400 * n, 24, ctx.seed + 2)
