"""Total time, step size and step count of one object."""
import quanguru as qg
from . import timebase as P
from ..adapters.timebase import Single, Time, Full


def run(ctx):
    q = ctx.quick
    n = 1 if q else 10
    P.exhaustive(ctx, "one system", {"Objs": {2}, "Ts": {6, 12} if q else {6, 12, 30}, "Dts": {1, 2} if q else {1, 2, 5}, "Ns": {1, 2, 3},
                                     "Smps": set(), "Sts": set()}, Single, ["T", "dt", "N", "read"])
    P.histories(ctx, "one system", {"Objs": {2}, "Smps": set(), "Sts": set()}, Single, ["T", "dt", "N", "read"], 400 * n, 20, ctx.seed)
    P.histories(ctx, "system and simulation", {"Objs": {1, 2, 4}, "Smps": set(), "Sts": set()}, Time, ["T", "dt", "N", "read", "attach"],
                400 * n, 24, ctx.seed + 1)
    readback(ctx)


def readback(ctx):
    """a step count that is set should be the one that is read (known finding: it is one more, the number of whole steps plus one)"""
    bad = []
    for first in ("totalTime", "stepSize"):
        for n in range(1, 9):
            sim = qg.Qubit(frequency=1).simulation
            setattr(sim, first, 24.0 if first == "totalTime" else 0.5)
            sim.stepCount = n
            want = {"totalTime": 24.0, "stepSize": 24.0 / n} if first == "totalTime" else {"stepSize": 0.5}
            got = {k: getattr(sim, k) for k in want}
            if got != want:
                ctx.violation("step size from step count", "%s then stepCount=%d gives %s" % (first, n, got), {"actions": [first, n]})
            read = sim.stepCount
            if read != n:
                bad.append((first, n, read, sim.totalTime // sim.stepSize + 1))
    for first, n, read, convention in bad:
        sig = "stepCount read back as N+1" if read == n + 1 == convention else "stepCount read back"
        ctx.violation(sig, "%s, then stepCount=%d, reads %d" % (first, n, read), {"actions": [first, n]})
    ctx.cov["stages"].append({"stage": "step count is read back", "cases": 16, "mismatches": len(bad)})
