"""Hamiltonians follow every change of terms, parameters and dimensions."""
from .. import tlc, replay
from ..adapters.ham import Ham, Full, Nested

INV = ["DistinctIds", "Placed", "PauliAlways", "Inside", "Additive"]
ACTS = ["freq", "ord", "op", "sys", "dim", "term", "couple", "remove", "reset", "assign", "sysnew"]
BIG = {"SIM": True, "Dims": {2, 3, 4}, "Freqs": {0, 1, 3, 100, 101, 102}, "Ords": {1, 2, 3},
       "Ops": {"number", "create", "destroy", "Jz", "Jx", "sigmax", "sigmaz", "identity"}}


def run(ctx):
    q = ctx.quick
    small = {"SIM": False, "Nested": False, "Dims": {2, 3}, "Freqs": {0, 2}, "Ords": {1, 2}, "Ops": {"number", "sigmax"},
             "MaxT": 2, "Leaf2Terms": {2}}
    if q:
        small.update(MaxT=1)
    res = tlc.run("Ham", small, view="V", invariants=INV)
    ctx.model("Ham, two systems in a composite (exhaustive)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover", Ham, w, need=[x for x in ACTS if x not in ("assign",) or not q])
    for nested, maxt, leaf, ad, num, depth in ((False, 3, {1, 2, 4}, Ham, 1500, 20), (False, 3, {1, 2}, Full, 400, 20),
                                              (True, 4, {1, 2, 3, 4, 5}, Nested, 900, 30)):
        res = tlc.run("Ham", dict(BIG, Nested=nested, MaxT=maxt, Leaf2Terms=leaf), invariants=INV,
                      simulate=num if q else num * 12, depth=depth, seed=ctx.seed + maxt)
        ctx.model("Ham nested=%s (random histories)" % nested, res)
        ctx.walks("random histories %s" % ad.__name__, ad, replay.chains(res), need=ACTS)
