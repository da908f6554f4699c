"""Shared by D01 and D02: instances of Time.tla."""
from .. import tlc, replay

INV = ["Consistent"]
BASE = {"SIM": True, "Objs": {1, 2, 3, 4, 5, 6, 7}, "Ts": {12, 24, 30, 60}, "Dts": {1, 2, 3, 5}, "Ns": {1, 2, 3, 4, 5, 6, 10}, "Smps": {1, 2, 3},
        "Sts": {0, 1}, "Grid": True}


def exhaustive(ctx, name, const, ad, need, **kw):
    res = tlc.run("Time", dict(BASE, SIM=False, **const), view="V", invariants=INV, properties=["Isolation", "Keeps"], **kw)
    ctx.model("Time: %s (exhaustive)" % name, res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover: " + name, ad, w, need=need)


def histories(ctx, name, const, ad, need, num, depth, seed):
    res = tlc.run("Time", dict(BASE, **const), invariants=INV, properties=[], simulate=num, depth=depth, seed=seed)
    ctx.model("Time: %s (random histories)" % name, res)
    ctx.walks("random histories: " + name, ad, replay.chains(res), need=need)
