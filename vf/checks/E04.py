"""User callbacks run at the prescribed moments, in order."""
from . import runs as P
from ..adapters.run import Run

Order = type("Order", (Run,), {"aspects": {"given"}})


def run(ctx):
    n = 1 if ctx.quick else 10
    P.exhaustive(ctx, "callbacks of one protocol", {"Homes": {"Q"} if ctx.quick else {"Q", "A"}, "Acts": {"cb"} | (set() if ctx.quick else {"pro"}),
                                                    "OneRun": True, "Start0": "ready", "CbObjs": {0, 1, 11}}, Order, ["cb", "run", "call", "finish"])
    need = ["cb", "addsweep", "run", "call", "finish"]
    P.histories(ctx, "all objects", {"Acts": {"cb", "sweep", "edit", "set"}}, Order, need, 200 * n, 500, ctx.seed)
    P.histories(ctx, "from one protocol", {"Acts": {"cb", "sweep", "edit", "pro"}, "Start0": "bare"}, Order, need + ["addpro"], 200 * n, 300, ctx.seed + 1)
