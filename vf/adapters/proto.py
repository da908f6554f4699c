import functools
import numpy as np
import scipy.linalg
from .common import fresh, differ, dense, close
from .ham import mat

UNIT = 0.125


def at(op, pos, d):
    return np.kron(op, np.eye(d)) if pos == 1 else np.kron(np.eye(2), op)


@functools.lru_cache(None)
def factor(key):
    f = dict(key)
    d = f["d"]
    if f["k"] in ("S", "A"):
        h = f["wA"] * at(mat("Jz", 2), 1, d)
        if f["k"] == "S":
            h = h + f["wB"] * at(mat("number", d), 2, d) + f["g"] * at(mat("Jx", 2), 1, d) @ at(mat("number", d), 2, d)
        u = scipy.linalg.expm(-1j * h * UNIT * f["num"] / f["den"])
    else:
        u = np.eye(2 * d)
        for pos in f["on"]:
            u = scipy.linalg.expm(-1j * f["a"] * 0.5 * at(mat("J" + f["k"], 2 if pos == 1 else d), pos, d)) @ u
    return u if f["c"] == 1 else u.conj().T


def word(w):
    u = None
    for f in w:
        m = factor(tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in f.items())))
        u = m if u is None else m @ u
    return u


class Failing(Exception):
    pass


class Proto:
    """Proto.tla <-> freeEvolution, xGate, SpinRotation, qProtocol, copyStep, Update"""
    NP = 2
    sparse = 0.25
    els = (1, 2, 3, 4)

    def reset(self, init):
        self.qg = qg = fresh()
        self.Update = qg.classes.QPro.Update
        self.A = qg.Qubit(frequency=1)
        self.B = qg.Cavity(frequency=1, dimension=2)
        self.S = self.A + self.B
        self.g = self.S.createTerm(qSystem=[self.A, self.B], operator=[qg.Jx, qg.number], frequency=1)
        self.S.simulation.stepSize = 2 * UNIT
        self.S.simulation.totalTime = 16 * UNIT
        self.el = {}
        for x in self.els:
            if x == 1:
                self.el[1] = qg.freeEvolution(system=self.S)
            elif x == 2:
                self.el[2] = qg.freeEvolution(system=self.A)
                self.el[2].simulation._bound(self.S.simulation, re=True)
            elif x == 3:
                self.el[3] = qg.xGate(system=self.A, angle=0.5, rotationAxis="x")
            elif x == 4:
                self.el[4] = qg.SpinRotation(system=[self.A, self.B], angle=0.5, rotationAxis="x")
        for i in range(self.NP):
            self.el[5 + i] = qg.qProtocol(system=self.S)
        self.steps = {5 + i: [] for i in range(self.NP)}

    def num(self, v):
        return self.rng.choice([float, int, np.float64])(v)

    def step(self, a):
        n, rng, el = a["n"], self.rng, self.el
        if n == "set":
            k, v = a["key"], a["v"]
            if k == "wA":
                self.A.frequency = self.num(v)
            elif k == "wB":
                self.B.frequency = self.num(v)
            elif k == "g":
                self.g.frequency = self.num(v)
            elif k == "dB":
                self.B.dimension = v
            elif k == "dt":
                self.S.simulation.stepSize = v * UNIT
            elif k == "smp":
                self.S.simulation.samples = v
        elif n == "el":
            e, k, v = el[a["x"]], a["key"], a["v"]
            if k == "own":
                e.simulation.stepSize = v * UNIT
            elif k == "ratio":
                e.ratio = self.num(v)
            elif k == "ang":
                e.angle = v * 0.5
            elif k == "ph":
                e.phase = self.num(v)
            elif k == "ax":
                e.rotationAxis = v.upper() if rng.randrange(2) else v
        elif n == "impl":
            el[3].implementation = rng.choice(["instant", "flip", "Instant"]) if a["v"] == "instant" else None
        elif n == "both":
            if rng.randrange(2):
                el[3].addSys(self.B)
            else:
                el[3].addSubSys(self.B)
        elif n == "del":
            (el[a["x"]] if a["x"] else rng.choice([self.S, self.A, self.S.simulation])).delMatrices()
        elif n == "add":
            P, e = el[a["P"]], el[a["x"]]
            st = e.hc if a["hc"] else e
            before = list(P.steps.values())
            if rng.randrange(3):
                P.addStep(st)
            elif rng.randrange(2):
                P.addSubSys(st)
            else:
                P.steps = [st]
            new = [s for s in P.steps.values() if not any(s is b for b in before)]
            if len(new) != 1:
                raise AssertionError("adding one step added %d" % len(new))
            self.steps[a["P"]].append(new[0])
        elif n == "remove":
            st = self.steps[a["P"]].pop(a["i"] - 1)
            el[a["P"]].removeSubSys(st if rng.randrange(2) else st.name)
        elif n == "resetsteps":
            self.steps[a["P"]] = []
            if rng.randrange(2):
                el[a["P"]].resetSubSys()
            else:
                el[a["P"]].subSys = []
        elif n == "update":
            k, v = a["key"], a["v"]
            tgt = {"wA": self.A, "wB": self.B, "wAB": [self.A, self.B], "ang3": el.get(3), "ratio1": el.get(1)}[k]
            attr = {"ang3": "angle", "ratio1": "ratio"}.get(k, "frequency")
            v = v * 0.5 if k == "ang3" else self.num(v)
            how = rng.randrange(3)
            if how == 0:
                el[a["x"]].createUpdate(system=tgt, key=attr, value=v)
            elif how == 1:
                def func(upd):
                    for sys in upd.subSys.values():
                        setattr(sys, upd.key, upd.value)
                el[a["x"]].createUpdate(system=tgt, key=attr, value=v, updateFunction=func)
            else:
                el[a["x"]].addUpdate(self.Update(system=tgt, key=attr, value=v))
        elif n == "updval":
            u = el[a["x"]].updates[a["i"] - 1]
            u.value = a["v"] * 0.5 if u.key == "angle" else self.num(a["v"])
        elif n == "fail":
            e = el[a["x"]]

            def func(upd):
                raise Failing
            e.createUpdate(system=self.B, key="frequency", updateFunction=func)
            try:
                if rng.randrange(2):
                    self.A.frequency = self.A.frequency + 1
                    self.A.frequency = self.A.frequency - 1
                e.getUnitary()
            except Failing:
                pass
            e.updates.pop()
        elif n == "fix":
            el[a["x"]].unitary()
            el[a["x"]].fixed = True
        elif n == "unfix":
            el[a["x"]].fixed = False
        return "ok"

    def check(self, a, outcome, o):
        rng = self.rng
        todo = [("u", x) for x in self.el] + [("v", 0), ("s", 0)]
        if not self.last:
            todo = [t for t in todo if rng.random() < self.sparse]
        rng.shuffle(todo)
        for k, x in todo:
            if k == "u":
                w = o["word"][x - 1]
                if not w:
                    continue
                want = word(w)
                how = rng.randrange(4)
                if how == 0:
                    got = self.el[x].hc.unitary()
                    want = want.conj().T
                elif how == 1:
                    got = self.el[x].getUnitary()
                else:
                    got = self.el[x].unitary()
                if got is None or not close(got, want, 1e-8):
                    return "unitary of element %d (%s) is not the product %s" % (x, ["hc", "getUnitary", "unitary", "unitary"][how], w)
            elif k == "v":
                v = o["vals"]
                r = differ("frequencies", (self.A.frequency, self.B.frequency), (v["wA"], v["wB"]))
                for y in (1, 2):
                    if y in self.el:
                        r = r or differ("ratio of %d" % y, self.el[y].ratio, v["ratio"][y - 1])
                for y in (3, 4):
                    if y in self.el:
                        r = r or differ("angle of %d" % y, self.el[y].angle, v["ang"][y - 1] * 0.5)
                if r:
                    return r
            else:
                for i in range(self.NP):
                    got = []
                    for s in self.el[5 + i].steps.values():
                        e = s.superSys if type(s).__name__ == "copyStep" else s
                        got.append([[y for y in self.el if self.el[y] is e][0], bool(getattr(s, "hc", False)) if type(s).__name__ == "copyStep" else False])
                    r = differ("steps of protocol %d" % (5 + i), got, [list(t) for t in o["steps"][i]])
                    if r:
                        return r
        return None


class Full(Proto):
    sparse = 1


class Few(Proto):
    els = (1, 3)
