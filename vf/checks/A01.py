"""Names and aliases."""
from .. import tlc, replay
from ..adapters.names import Names

INV = ["UniqueNames", "OneOwner", "FoundByAll"]


def run(ctx):
    q = ctx.quick
    res = tlc.run("Names", {"SIM": False, "Classes": {"qBase", "Cavity"}, "MaxObj": 2 if q else 3, "Pool": {"x", "y"},
                            "Keeps": {"Cavity", "Qubit", "Gate"}}, view="V", invariants=INV, properties=["NamesFixed"])
    ctx.model("Names (exhaustive)", res)
    w, n = replay.cover(res, seed=ctx.seed)
    ctx.cov["exhaustive"] = True
    ctx.walks("transition cover", Names, w, need=["create", "alias", "aliases", "rename"])
    res = tlc.run("Names", {"SIM": True, "Classes": {"named", "qBase", "Cavity", "Gate", "Qubit"}, "MaxObj": 5, "Pool": {"x", "y", "z", "alpha beta"},
                            "Keeps": {"Cavity", "Qubit", "Gate"}}, invariants=INV, simulate=600 if q else 5000, depth=16, seed=ctx.seed)
    ctx.model("Names (random histories)", res)
    ctx.walks("random histories", Names, replay.chains(res), need=["create", "alias", "aliases", "rename"])
