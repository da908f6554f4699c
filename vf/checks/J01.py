"""Saving data and results, and reading them back."""
import shutil
import tempfile
from .. import tlc, replay
from ..adapters.files import Files, VAL

TWO = "two different data have one file"
INV, PROP = ["OneContent", "Whole"], ["OnlyWritten"]


def run(ctx):
    q = ctx.quick
    Files.base = tempfile.mkdtemp(prefix="vf-files-")
    try:
        res = tlc.run("Files", {"SIM": False, "Names": {"a"} if q else {"a", "b"}, "Objs": {"o1", "o2"}, "Keys": {"x", "y"}, "Vals": {0, 1}, "MaxLen": 2,
                                "MaxGrid": 2, "Sides": {1, 2}, "Kinds": {"float"} if q else {"float", "mixed"}}, view="V", invariants=INV, properties=PROP, constraint="Small")
        ctx.model("Files (exhaustive)", res)
        w, n = replay.cover(res, seed=ctx.seed)
        ctx.cov["exhaustive"] = True
        need = ["save", "run", "saveres", "missing"]
        Files.nv = 2
        ctx.walks("transition cover", Files, w, need=need)
        res = tlc.run("Files", {"SIM": True, "Names": {"a", "b", "data1", "c.d"}, "Objs": {"o1", "o2"}, "Keys": {"x", "y"}, "Vals": set(range(6)), "MaxLen": 3,
                                "MaxGrid": 3, "Sides": {1, 2, 3}, "Kinds": set(VAL)}, invariants=INV, properties=[], simulate=200 if q else 4000, depth=25, seed=ctx.seed)
        ctx.model("Files (random histories)", res)
        Files.nv = 6
        ctx.walks("random histories", Files, replay.chains(res), need=need + ["stamp"])
        # more than ten points in a direction: the indices in the names of the files have one or two digits
        res = tlc.run("Files", {"SIM": True, "Names": {"a"}, "Objs": {"o1", "o2"}, "Keys": {"x", "y"}, "Vals": set(range(6)), "MaxLen": 2,
                                "MaxGrid": 3, "Sides": {1}, "Grids": "<- BigGrids", "Kinds": {"float"}}, invariants=INV, properties=[], simulate=12 if q else 60, depth=12,
                      seed=ctx.seed)
        ctx.model("Files (large grids)", res)
        ctx.walks("large grids", Files, replay.chains(res), need=["run", "saveres"],
                  sig=lambda w, i, msg: "one file name for the indices 1,11 and 11,1" if msg == TWO else "large grids:" + w[2][i][0]["n"])
    finally:
        shutil.rmtree(Files.base, ignore_errors=True)
