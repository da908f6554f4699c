"""Inheritance of simulation parameters."""
from . import timebase as P
from ..adapters.timebase import Time, Full

NEED = ["T", "dt", "N", "smp", "del", "ist", "attach", "step"]


def run(ctx):
    q = ctx.quick
    n = 1 if q else 10
    P.exhaustive(ctx, "samples and initial states", {"Objs": {1, 2, 4, 5} if not q else {1, 2, 4}, "Ts": set(), "Dts": set(), "Ns": set(), "Smps": {2} if q else {2, 3}, "Sts": {1}},
                 type("T", (Time,), {"objs": (1, 2, 4, 5) if not q else (1, 2, 4)}), ["smp", "del", "ist", "attach"])
    P.histories(ctx, "all objects", {}, Time, NEED, 900 * n, 30, ctx.seed)
    P.histories(ctx, "all objects, everything read", {}, Full, NEED, 300 * n, 30, ctx.seed + 1)
