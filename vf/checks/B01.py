"""Composite structures: dimensions, tensor placement and Hamiltonians of nested systems."""
from .. import tlc, replay
from ..adapters.composite import Composite

INV = ["OneParent", "NoRepeat", "Acyclic", "DimIsProd", "CplInside", "Additive"]
ACTS = ["add", "remove", "reset", "setdim", "couple", "uncouple"]


class C22(Composite):
    NL, NC = 2, 2


class C33(Composite):
    NL, NC = 3, 3


class C43(Composite):
    NL, NC = 4, 3


class Full(Composite):
    sparse = False


def run(ctx):
    q = ctx.quick
    res = tlc.run("Composite", {"SIM": False, "NL": 2, "NC": 2, "Dims": {2, 3}, "MaxCpl": 1}, view="V", invariants=INV)
    ctx.model("Composite, 2 systems in 2 composites (exhaustive)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover 2+2", C22, w, need=ACTS)
    for NL, NC, ad, num, depth in ((3, 2, Composite, 1200 if q else 6000, 18), (3, 2, Full, 300 if q else 1500, 18),
                                   (4, 3, C43, 500 if q else 4000, 24)):
        res = tlc.run("Composite", {"SIM": True, "NL": NL, "NC": NC, "Dims": {2, 3} if NL > 3 else {2, 3, 4}, "MaxCpl": 2},
                      invariants=INV[:-1], simulate=num, depth=depth, seed=ctx.seed + NL)
        ctx.model("Composite, %d systems in %d composites (random histories)" % (NL, NC), res)
        ctx.walks("random histories %d+%d %s" % (NL, NC, ad.__name__), ad, replay.chains(res), need=ACTS)
    if not q:
        res = tlc.run("Composite", {"SIM": False, "NL": 3, "NC": 2, "Dims": {2, 3}, "MaxCpl": 1}, view="V", invariants=INV)
        ctx.model("Composite, 3 systems in 2 composites (exhaustive)", res)
        w, n = replay.cover(res, seed=ctx.seed)
        ctx.walks("transition cover 3+2", Composite, w, need=ACTS)
