"""Standard operators, states and observables."""
from .. import tlc, replay
from ..adapters.standard import Standard

INV = ["Casimir", "Raises", "Ladder", "Normal", "Hermitian", "Conserves", "Balance"]


def run(ctx):
    q = ctx.quick
    c = {"MaxDim": 10 if q else 40, "MaxPow": 3, "MaxW": 2 if q else 3, "MaxT": 3, "MaxN": 6 if q else 20, "Dims": {2, 3} if q else {2, 3, 4}}
    res = tlc.run("Standard", c, view="V", invariants=INV)
    ctx.model("Standard (every call within the bounds)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("calls", Standard, w, need=["ujc", "steady", "op", "fixed", "cphase", "power", "superpos", "composite", "mixed", "two", "qubits", "bells", "rot", "coupling", "displace", "squeeze", "thermal", "evolve", "eig"])
