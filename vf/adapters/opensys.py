import functools
import numpy as np
import scipy.linalg
from .common import fresh, differ, dense, close
from .ham import mat
from .proto import at, UNIT

RATE = 0.25


@functools.lru_cache(None)
def jump(op, d):
    """jump operators of the parts"""
    m = np.zeros((d, d), dtype=complex)
    if op == "down":
        for i in range(d - 1):
            m[i, i + 1] = np.sqrt(i + 1)
    elif op == "up":
        for i in range(d - 1):
            m[i + 1, i] = np.sqrt(i + 1)
    elif op == "phase":
        for i in range(d):
            m[i, i] = i + 1j * (i % 2)
    elif op == "mix":
        for i in range(d - 1):
            m[i, i + 1] = 1
            m[i + 1, i] = -0.5j
    return m


def nbar(T, cf):
    return 0.0 if T == 0 else 1.0 / (np.exp(cf / T) - 1)


def rate(s):
    return RATE * s["rate"] * (nbar(s["T"], s["cf"]) + s["typ"])


@functools.lru_cache(None)
def factor(key, sup):
    """a factor of a word as a unitary, or as the map of the (column-stacked) density matrix"""
    f = dict(key)
    d = f["d"]
    if "t" not in f:
        u = scipy.linalg.expm(-1j * f["a"] * 0.5 * at(mat("J" + f["k"], 2), 1, d))
        m = np.kron(u.conj(), u) if sup else u
    else:
        h = np.zeros((2 * d, 2 * d), dtype=complex)
        if f["k"] in "SA":
            h = h + f["wA"] * at(mat("Jz", 2), 1, d)
        if f["k"] in "SB":
            h = h + f["wB"] * at(mat("number", d), 2, d)
        if f["k"] == "S":
            h = h + f["g"] * at(mat("Jx", 2), 1, d) @ at(mat("number", d), 2, d)
        t = UNIT * f["t"]
        if not sup:
            m = scipy.linalg.expm(-1j * h * t)
        else:
            e = np.eye(2 * d)
            lv = -1j * (np.kron(e, h) - np.kron(h.T, e))
            for s in f["ds"]:
                s = dict(s)
                c = at(jump(s["op"], 2), 1, d) if s["sys"] == "A" else at(jump(s["op"], d), 2, d)
                n = c.conj().T @ c
                lv = lv + rate(s) * (np.kron(c.conj(), c) - 0.5 * (np.kron(e, n) + np.kron(n.T, e)))
            m = scipy.linalg.expm(lv * t)
    return m if f["c"] == 1 else m.conj().T


def key(f):
    return tuple(sorted((k, tuple(tuple(sorted(s.items())) for s in v) if k == "ds" else v) for k, v in f.items()))


def word(w, sup):
    u = None
    for f in w:
        m = factor(key(f), sup)
        u = m if u is None else m @ u
    return u


class Open:
    """Open.tla <-> dissipatorObj, thermalBath and protocols of open systems"""
    sparse = 0.25
    prots = (5, 8)
    els = (1, 2, 3, 4, 6, 7)
    baths = 2

    def reset(self, init):
        self.qg = qg = fresh()
        self.A = qg.Qubit(frequency=1)
        self.B = qg.Cavity(frequency=1, dimension=2)
        self.S = self.A + self.B
        self.g = self.S.createTerm(qSystem=[self.A, self.B], operator=[qg.Jx, qg.number], frequency=1)
        self.S.simulation.stepSize = 2 * UNIT
        self.S.simulation.totalTime = 16 * UNIT
        self.S.initialState = [0, 1]
        self.el = {1: self.S._freeEvol, 2: qg.freeEvolution(system=self.S), 3: qg.xGate(system=self.A, angle=0.5, rotationAxis="x"),
                   4: qg.freeEvolution(system=self.A), 6: self.A._freeEvol, 7: self.B._freeEvol}
        for x in (self.el[4], self.A, self.B):
            x.simulation._bound(self.S.simulation, re=True)
        self.el = {x: e for x, e in self.el.items() if x in self.els}
        for x in self.prots:
            self.el[x] = qg.qProtocol(system=self.S)
        self.steps = {x: [] for x in self.prots}
        self.ds, self.dssys = [], []
        self.bath = [qg.thermalBath() for _ in range(self.baths)]
        self.dim = 2

    def num(self, v):
        return float(v) if self.rng.randrange(2) else v

    def oper(self, op, sysname):
        import scipy.sparse as sp
        return sp.csc_matrix(jump(op, 2 if sysname == "A" else self.dim))

    def step(self, a):
        n, rng, el, qg = a["n"], self.rng, self.el, self.qg
        if n == "set":
            k, v = a["key"], a["v"]
            if k == "wA":
                self.A.frequency = self.num(v)
            elif k == "wB":
                self.B.frequency = self.num(v)
            elif k == "g":
                self.g.frequency = self.num(v)
            elif k == "dt":
                self.S.simulation.stepSize = v * UNIT
            elif k == "ang":
                el[3].angle = v * 0.5
            elif k == "ax":
                el[3].rotationAxis = v
            elif k == "ini":
                self.S.initialState = list(v)
            elif k == "dB":
                self.dim = v
                mine = [i for i in range(len(self.ds)) if self.dssys[i][0] == "B"]
                first = rng.randrange(2)
                if first:
                    self.B.dimension = v
                for i in mine:
                    self.ds[i].jOper = self.oper(self.dssys[i][1], "B")
                if not first:
                    self.B.dimension = v
        elif n == "ratio":
            el[a["x"]].ratio = self.num(a["v"])
        elif n == "new":
            sys = self.A if a["sys"] == "A" else self.B
            j, r = self.oper(a["op"], a["sys"]), RATE * a["rate"]
            how = rng.randrange(3)
            if how == 0:
                kw = {} if a["typ"] == 1 else {"type": 0}
                d = qg.dissipatorObj(system=sys, jOper=j, jRate=r, **kw)
            elif how == 1:
                d = qg.dissipatorObj(jOper=j, jRate=r, type=a["typ"])
                d.system = sys
            else:
                d = qg.dissipatorObj(system=sys)
                d.type, d.jRate, d.jOper = a["typ"], r, j
            self.ds.append(d)
            self.dssys.append((a["sys"], a["op"]))
        elif n == "attach":
            self.ds[a["i"] - 1].addToProtocol(el[a["x"]])
        elif n == "rate":
            self.ds[a["i"] - 1].jRate = RATE * a["v"]
        elif n == "type":
            self.ds[a["i"] - 1].type = a["v"]
        elif n == "op":
            i = a["i"] - 1
            self.dssys[i] = (self.dssys[i][0], a["v"])
            self.ds[i].jOper = self.oper(a["v"], self.dssys[i][0])
        elif n == "tempds":
            self.ds[a["i"] - 1].temperature = self.num(a["v"])
        elif n == "temp":
            self.bath[a["b"] - 1].temperature = self.num(a["v"])
        elif n == "cf":
            self.bath[a["b"] - 1].charFreq = self.num(a["v"])
        elif n == "join":
            if rng.randrange(2):
                self.bath[a["b"] - 1].dissipator = self.ds[a["i"] - 1]
            else:
                self.bath[a["b"] - 1].subSys = self.ds[a["i"] - 1]
        elif n == "del":
            (el[a["x"]] if a["x"] else rng.choice([self.S, self.A, self.S.simulation] + self.ds + self.bath)).delMatrices()
        elif n == "add":
            P, e = el[a["P"]], el[a["x"]]
            st = e.hc if a["hc"] else e
            before = list(P.steps.values())
            P.addStep(st)
            new = [s for s in P.steps.values() if not any(s is b for b in before)]
            if len(new) != 1:
                raise AssertionError("adding one step added %d" % len(new))
            self.steps[a["P"]].append(new[0])
        elif n == "remove":
            el[a["P"]].removeSubSys(self.steps[a["P"]].pop(a["i"] - 1))
        elif n == "run":
            return self.run(el[a["x"]], a["x"], a["k"])
        return "ok"

    def run(self, e, x, k):
        sim = self.S.simulation
        sim.totalTime = k * sim.stepSize
        if x == 1:
            if self.rng.randrange(2):
                sim.addQSystems(self.S)
        else:
            sim.addProtocol(e, self.S)
        sim.run()
        st = sim.states[(self.S.name if x == 1 else e.name) + "Results"]
        self.states = [dense(s) for s in st]
        sim.removeQSystems(self.S)
        sim.totalTime = 16 * UNIT
        return "ok"

    def check(self, a, outcome, o):
        rng = self.rng
        if a["n"] == "run":
            r = self.checkRun(a, o)
            if r:
                return r
        todo = [("u", x) for x in self.el] + [("r", 0)]
        if not self.last:
            todo = [t for t in todo if rng.random() < self.sparse]
        rng.shuffle(todo)
        for k, x in todo:
            if k == "r":
                for i, s in enumerate(o["ds"]):
                    if abs(self.ds[i].jRate - rate(s)) > 1e-9:
                        return "rate of dissipator %d: %r instead of %r (%s)" % (i + 1, self.ds[i].jRate, rate(s), s)
                continue
            w = o["word"][x - 1]
            if not w:
                continue
            how = rng.randrange(4)
            got = dense([lambda: self.el[x].hc.unitary(), self.el[x].getUnitary, self.el[x].unitary, self.el[x].unitary][how]())
            sup = got.shape[0] == (2 * o["d"]) ** 2
            if o["open"][x - 1] and not sup:
                return "map of the open element %d has shape %s" % (x, got.shape)
            want = word(w, sup)
            if how == 0:
                want = want.conj().T
            if not close(got, want, 1e-8):
                return "map of element %d (%s) is not the product %s" % (x, ["hc", "getUnitary", "unitary", "unitary"][how], w)
        return None

    def checkRun(self, a, o):
        x, d = a["x"], o["d"]
        ket = np.zeros((2 * d, 1), dtype=complex)
        ket[o["ini"][0] * d + o["ini"][1]] = 1
        sup = o["open"][x - 1] or self.states[0].shape[1] > 1
        m = word(o["word"][x - 1], sup)
        v = (ket @ ket.conj().T).reshape(-1, 1, order="F") if sup else ket
        if len(self.states) <= a["k"]:
            return "run stored %d states for %d steps" % (len(self.states), a["k"])
        for i, s in enumerate(self.states):
            got = s.reshape(-1, 1, order="F") if sup else s
            if got.shape != v.shape or not close(got, v, 1e-8):
                return "state %d of the run of element %d is wrong" % (i, x)
            v = m @ v
        return None


class Full(Open):
    sparse = 1
