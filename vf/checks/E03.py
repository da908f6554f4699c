"""A trajectory is the repeated application of the protocol to the initial state."""
from . import runs as P
from ..adapters.run import Run

Traj = type("Traj", (Run,), {"aspects": {"given", "cur", "smp", "states"}, "watch": {(o, "com") for o in (0, 1, 2, 3, 11, 12)}})


def run(ctx):
    n = 1 if ctx.quick else 10
    A = {"set", "own", "pro", "sweep"}
    P.histories(ctx, "all protocols", {"Acts": A, "Tgts": {"T", "dt", "s1", "iniA", "fA"}}, Traj, ["set", "own", "addsweep", "run", "call", "finish"],
                200 * n, 400, ctx.seed)
    P.histories(ctx, "from one protocol", {"Acts": A | {"cb"}, "Start0": "bare"}, Traj, ["set", "own", "addpro", "run", "call", "finish"],
                200 * n, 250, ctx.seed + 1)
