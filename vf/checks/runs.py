"""Shared by the properties about runs: instances of Run.tla."""
from .. import tlc, replay

INV = ["GridOnce", "AtPoint", "OnePerPoint", "Trajectories"]
PROP = ["Ordered", "RunFrame"]
ALL = {"set", "own", "cb", "sweep", "edit", "pro", "tdf", "tds", "tdx"}
TG = {"fA", "fB", "fAB", "cust", "T", "dt", "s1", "iniA", "aux", "fx", "gp", "auxo"}
BASE = {"SIM": True, "Homes": {"Q", "A"}, "Vars": "<- VarsAll", "Acts": ALL, "Tgts": TG, "MaxSweeps": 3, "MaxLen": 3, "MaxCost": 8, "Pools": set(), "Start0": "full", "Ramp": False, "OneRun": False, "CbObjs": {0, 1, 2, 3, 11, 12}}


def exhaustive(ctx, name, const, ad, need, **kw):
    res = tlc.run("Run", dict(BASE, SIM=False, Vars="<- VarsEvo", **const), view="V", invariants=INV, properties=PROP, **kw)
    ctx.model("Run: %s (exhaustive)" % name, res)
    w, n = replay.cover(res, seed=ctx.seed, maxlen=400)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover: " + name, ad, w, need=need)


def histories(ctx, name, const, ad, need, num, depth, seed):
    res = tlc.run("Run", dict(BASE, **const), invariants=INV, properties=[], simulate=num, depth=depth, seed=seed)
    ctx.model("Run: %s (random histories)" % name, res)
    ctx.walks("random histories: " + name, ad, replay.chains(res), need=need)
