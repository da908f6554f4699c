"""Updates of steps are in force during the step only."""
from . import proto as P

KEYS = {"wA", "wB", "wAB", "ang3", "ratio1"}


def run(ctx):
    q = ctx.quick
    n = 1 if q else 12
    P.exhaustive(ctx, "one protocol", dict(Els={1}, Angs={1}, Ratios={1}, Dts={2}, MaxUpd=1, Ws={1, 2}, Keys={"wA"}, NP=1) if q else
                 dict(Angs={1}, Ratios={1}, Dts={2}, MaxUpd=1, Ws={1, 2}, Keys={"wA", "wAB"}, NP=1), ["update", "add"])
    P.histories(ctx, "overlapping updates", {"MaxUpd": 3, "Keys": KEYS, "MaxSteps": 3}, ["update", "add", "fail"], 500 * n, 24, ctx.seed)
    P.histories(ctx, "everything read", {"MaxUpd": 2, "Keys": KEYS, "MaxSteps": 3}, ["update", "add", "fail"], 120 * n, 24, ctx.seed + 1, sparse=1)
    P.histories(ctx, "nested updates", {"MaxUpd": 2, "Keys": {"wA", "wAB"}, "NP": 3, "Els": {1, 2}}, ["update", "add", "fail"], 300 * n, 24, ctx.seed + 2)
