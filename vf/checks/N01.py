"""Statistics of eigenvalues and eigenvectors."""
from .. import tlc, replay
from ..adapters.spectra import Spectra

INV = ["Normal", "Mean", "One", "Orthogonal", "Decrease"]


def run(ctx):
    q = ctx.quick
    res = tlc.run("Spectra", {"MaxDim": 8 if q else 10, "MaxK": 2 if q else 4, "MaxW": 2 if q else 4, "MaxX": 6 if q else 10, "Large": {16, 50, 200, 400, 1000} if q else {12, 16, 25, 50, 51, 100, 199, 200, 333, 341, 342, 400, 1000}}, view="V", invariants=INV)
    ctx.model("Spectra (every call within the bounds)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("calls", Spectra, w, need=["vector", "spacing", "events", "ket", "vectors"])
