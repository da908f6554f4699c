"""Linear algebra of tensor products."""
from .. import tlc, replay
from ..adapters.tensor import Tensor

INV = ["Shape", "TraceKeeps", "TraceBack", "NoLoss", "HcTwice"]
ALL = {"newop", "newket", "tensor", "tensor3", "place", "mul", "mul3", "pow", "hc", "outer", "ptrace", "sum", "super", "scalar", "heat"}
BASE = {"SIM": True, "MaxR": 5, "MaxD": 18, "MaxV": 100, "Ds": {2, 3}, "Lev": 3, "Acts": ALL, "Places": {1, 2, 3}, "MaxNew": 9, "MaxL": 99}


def run(ctx):
    q = ctx.quick
    c = dict(BASE, SIM=False, MaxR=3, MaxD=4, Ds={2}, Lev=1, Places={1, 2}, MaxNew=1 if q else 2, MaxL=4,
             Acts={"newop", "newket", "tensor", "place", "mul", "hc", "outer", "ptrace", "scalar"})
    res = tlc.run("Tensor", c, view="V", invariants=INV[:1], constraint="Short")
    ctx.model("Tensor (exhaustive)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover", type("A", (Tensor,), {"MaxR": 3}), w, need=["newop", "newket", "tensor", "place", "mul", "hc", "outer", "ptrace"])
    need = ["newop", "newket", "tensor", "place", "mul", "pow", "hc", "outer", "ptrace", "sum", "super", "inner", "trace", "expect", "purity",
            "fidelity", "norm", "heat"]
    res = tlc.run("Tensor", BASE, invariants=INV, emit="state", simulate=1500 if q else 20000, depth=30, seed=ctx.seed)
    ctx.model("Tensor (random histories)", res)
    ctx.walks("random histories", Tensor, replay.chains(res), need=need)
