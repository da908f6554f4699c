import os
import shutil
import tempfile
from .common import fresh, differ, np

REAL = {"float": [0.0, 1 / 3, -1e300, 5e-324, 123456789.123456789, -0.1], "int": [0, -7, 10 ** 15 + 1, 3, 2 ** 40, 12]}
REAL["npfloat"] = [np.float64(x) for x in REAL["float"]]
REAL["npint"] = [np.int64(x) for x in REAL["int"]]
CPLX = {"complex": [0j, 1 / 3 + 1e-300j, -2.5j, complex(-0.1, -7), 3 + 0j, 1e22 - 1j]}
CPLX["npcomplex"] = [np.complex128(x) for x in CPLX["complex"]]
CPLX["mixed"] = [1.5, 2 - 1j, 3, np.float64(1 / 3), np.complex128(1j), -2]
VAL = dict(REAL, **CPLX)


class Files:
    """Files.tla <-> extensions/saveReadCSV.py, in a scratch directory of its own"""
    base = None      # the scratch directory
    nv = 6           # number of values (Vals)

    def reset(self, init):
        self.qg = fresh()
        self.close()
        self.dir = tempfile.mkdtemp(prefix="vf-files-", dir=self.base)
        self.sub = os.path.join(self.dir, "new") if self.rng.randrange(2) else self.dir
        self.sim = None

    def close(self):
        if getattr(self, "dir", None):
            shutil.rmtree(self.dir, ignore_errors=True)

    def data(self, a):
        v = VAL[a["kind"]]
        d = [[v[i] for i in r] for r in a["rows"]]
        if a["form"] == "array":
            if all(len(r) == len(d[0]) for r in d):
                d = np.array(d)
        elif a["form"] == "mixed":
            d = [np.array(r) if self.rng.randrange(2) else r for r in d]
        return d[0] if a["flat"] else d

    def step(self, a):
        n = a["n"]
        sv = self.qg
        if n == "save":
            d = self.data(a)
            before = repr(d)
            path = sv.saveCSV(d, self.sub, a["k"]) if self.rng.randrange(2) else sv.saveCSV(data=d, path=self.sub, fileName=a["k"])
            if path != self.sub:
                return "saveCSV returns %r" % (path,)
            if repr(d) != before:
                return "saveCSV changes its input"
        elif n == "stamp":
            d = self.data(a)
            old = set(self.listing())
            sv.saveCSV(d, self.sub)
            new = [x for x in self.listing() if x not in old]
            if len(new) != 1:
                return "saving without a name makes %d files" % len(new)
            f = os.path.join(self.sub, new[0])
            bad = self.compare(f, a["rows"], a["kind"])
            os.remove(f)
            return bad or "ok"
        elif n == "run":
            return self.run(a["res"])
        elif n == "saveres":
            if self.sim is not None:
                from quanguru.extensions.saveReadCSV import saveQResCSV
                saveQResCSV(self.rng.choice([self.sim.qRes] + [o.qRes for o in self.objs.values()]), self.sub)
        elif n == "missing":
            try:
                sv.readCSV(os.path.join(self.sub, a["k"] + ".txt"))
            except OSError:
                return "ok"
            return "a file that does not exist is read"
        return "ok"

    def run(self, res):
        qg = self.qg
        if self.sim is None:
            self.sim = qg.Simulation()
            self.objs = {o: qg.Qubit(frequency=1, alias=o) for o in ("o1", "o2")}
            for o in self.objs.values():
                self.sim.addQSystems(o)
                o.initialState = 0
            self.sim.stepSize = 1
        sim, objs = self.sim, self.objs
        for s in list(sim.Sweep.subSys.values()):
            sim.Sweep.removeSweep(s)
        for g in res[0]["grid"]:
            sim.Sweep.createSweep(system=objs["o1"], sweepKey="frequency", sweepList=[1.0 + i for i in range(g)], combinatorial=True)
        steps = max(max(r["t"] for r in res) - 1, 1)
        sim.totalTime = steps * 1.0
        count = [0]

        def compute(*_):
            p, j = divmod(count[0], self.n)
            count[0] += 1
            for r in res:
                if j < r["t"]:
                    v = VAL[r["kind"]]
                    objs[r["o"]].qRes.singleResult = r["k"], v[(r["base"] + p * r["t"] + j) % self.nv]
        sim.compute = compute
        self.n = sim.stepCount + 1
        sim.run()
        return "ok"

    def listing(self):
        return sorted(os.listdir(self.sub)) if os.path.isdir(self.sub) else []

    def fileName(self, f):
        if f["o"] == "":
            return f["k"] + ".txt"
        return self.objs[f["o"]].qRes.name._allStringSum() + f["k"] + "".join(str(i) for i in f["ix"]) + ".txt"

    def compare(self, path, rows, kind):
        v = VAL[kind]
        want = [[v[i] for i in r] for r in rows]
        rd = self.qg.readCSV
        reads = []
        if kind in REAL:
            reads += [("float", rd(path), float), ("float", rd(path, np.complex128), float), ("complex", rd(path, np.complex128, False), complex)]
            if kind in ("int", "npint"):
                reads.append(("int", rd(path, int), int))
        else:
            reads += [("complex", rd(path, datatype=np.complex128, realVal=False), complex), ("the real part", rd(path, np.complex128), lambda x: float(np.real(x)))]
        for what, got, conv in reads:
            if len(want) == 1:
                got = [got]
            w = [[conv(x) for x in r] for r in want]
            g = [[x for x in np.asarray(r).tolist()] for r in got]
            if g != w or [[type(x) for x in r] for r in g] != [[type(x) for x in r] for r in w]:
                return "reading %s as %s gives %r, saved was %r" % (os.path.basename(path), what, g, w)
        return None

    def check(self, a, out, obs):
        bad = a["n"] != "init" and differ("%s" % a["n"], out, "ok")
        if bad:
            return bad
        files = {self.fileName(f): f for f in obs["files"]}
        if len(files) != len(obs["files"]):
            return "two different data have one file"
        bad = differ("the files", self.listing(), sorted(files))
        if bad:
            return bad
        for name, f in files.items():
            bad = self.compare(os.path.join(self.sub, name), f["rows"], f["kind"])
            if bad:
                return bad
        return None
