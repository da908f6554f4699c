"""Protocols are the time-ordered products of their steps."""
from . import proto as P


def run(ctx):
    q = ctx.quick
    n = 1 if q else 12
    P.exhaustive(ctx, "one protocol", dict(NP=1, MaxSteps=3, Angs={1}, Ratios={1}, Dts={2}), ["add", "remove"])
    P.exhaustive(ctx, "nested protocols", dict(NP=2, MaxSteps=2, Els={1}, Angs={1}, Ratios={1}, Dts={2}), ["add", "remove"])
    P.histories(ctx, "protocol trees", {"NP": 3}, ["add", "remove"], 450 * n, 28, ctx.seed)
    P.histories(ctx, "wide protocols", {"NP": 2, "MaxSteps": 7, "Ws": {1}, "Gs": {1}, "Dts": {2}, "Smps": {1}, "Phs": {1}, "Dims": {2}},
                ["add", "remove"], 300 * n, 28, ctx.seed + 1)
    P.histories(ctx, "fixed steps", {"NP": 2, "MaxFix": 2, "MaxSteps": 3}, ["add", "remove", "fix", "unfix"], 300 * n, 28, ctx.seed + 2)
