import functools
import numpy as np
import scipy.linalg
from .common import fresh, differ, dense, close

OPS = ["number", "create", "destroy", "Jz", "Jx", "sigmax", "sigmaz", "identity"]
FREQ = {100: 0.5, 101: 2j, 102: -1.25}


@functools.lru_cache(None)
def mat(op, d):
    """the matrices the operators stand for, written down independently of the code under test"""
    n = np.arange(d)
    if op == "number":
        return np.diag(n).astype(complex)
    if op in ("create", "destroy"):
        m = np.diag(np.sqrt(n[1:]), 1).astype(complex)
        return m if op == "destroy" else m.conj().T
    if op == "identity":
        return np.eye(d, dtype=complex)
    if op == "sigmax":
        return np.array([[0, 1], [1, 0]], dtype=complex)
    if op == "sigmaz":
        return np.array([[1, 0], [0, -1]], dtype=complex)
    j = (d - 1) / 2
    m = j - n                                   # highest projection first
    if op == "Jz":
        return np.diag(m).astype(complex)
    up = np.diag(np.sqrt(j * (j + 1) - m[1:] * (m[1:] + 1)), 1).astype(complex)
    if op == "Jx":
        return (up + up.conj().T) / 2
    if op == "Jy":
        return (up - up.conj().T) / 2j
    raise KeyError(op)


def hamiltonian(terms, total):
    h = np.zeros((total, total), dtype=complex)
    for t in terms:
        m = np.eye(total, dtype=complex) * FREQ.get(t["f"], t["f"])
        for b, d, a, op, o in t["fac"]:
            m = m @ np.kron(np.kron(np.eye(b), np.linalg.matrix_power(mat(op, d), o)), np.eye(a))
        h += m
    return h


class Ham:
    """Ham.tla <-> QuantumSystem, QTerm"""
    nested = False
    sparse = True

    def reset(self, init):
        self.qg = qg = fresh()
        self.node = {1: qg.Cavity(dimension=2, frequency=1), 2: qg.QuantumSystem(dimension=2)}
        if self.nested:
            self.node[3] = qg.QuantumSystem(dimension=2)
        if self.rng.randrange(2):
            self.node[4] = qg.QuantumSystem(subSys=[self.node[1], self.node[2]])
        else:
            self.node[4] = self.node[1] + self.node[2]
        if self.nested:
            self.node[5] = qg.QuantumSystem()
            self.node[5].addSubSys(self.node[4])
            self.node[5].addSubSys(self.node[3])
        self.term = {1: list(self.node[1].terms.values())[0]}
        self.root = self.node[5 if self.nested else 4]
        for s in self.node.values():
            s.simulation.stepSize = 0.125
            s.simulation.totalTime = 1

    def op(self, name):
        return getattr(self.qg, name)

    def freq(self, v):
        v = FREQ.get(v, v)
        return float(v) if isinstance(v, int) and self.rng.randrange(2) else v

    def step(self, a):
        n, N, rng = a["n"], self.node, self.rng
        one = lambda v: v[0] if len(v) == 1 else (list(v) if rng.randrange(2) else tuple(v))
        try:
            if n in ("freq", "ord", "op"):
                attr = {"freq": "frequency", "ord": "order", "op": "operator"}[n]
                v = self.freq(a["v"]) if n == "freq" else one(a["v"]) if n == "ord" else one([self.op(o) for o in a["v"]])
                setattr(self.term[a["id"]] if a["via"] == "term" else N[a["at"]], attr, v)
            elif n == "sys":
                q = [N[i] if rng.randrange(2) else N[i].name for i in a["v"]]
                self.term[a["id"]].qSystem = q if rng.randrange(2) else tuple(q)
            elif n == "dim":
                N[a["x"]].dimension = a["v"]
            elif n == "term":
                kw = dict(operator=self.op(a["op"]), frequency=self.freq(a["f"]))
                if a["ord"] != 1 or rng.randrange(2):
                    kw["order"] = a["ord"]
                if a["via"] != a["at"] or rng.randrange(2):
                    kw["qSystem"] = N[a["at"]] if rng.randrange(2) else N[a["at"]].name
                self.term[a["id"]] = N[a["via"]].createTerm(**kw)
            elif n == "couple":
                self.term[a["id"]] = N[a["at"]].createTerm(qSystem=[N[i] for i in a["q"]], frequency=self.freq(a["f"]),
                                                           operator=[self.op(o) for o in a["op"]])
            elif n == "remove":
                t = self.term[a["id"]]
                N[a["via"]].removeTerm(t if rng.randrange(2) else t.name)
            elif n == "reset":
                N[a["x"]].resetTerms()
            elif n == "assign":
                s = N[a["x"]]
                t = self.qg.QTerm(qSystem=s, operator=self.op(a["op"]), frequency=self.freq(a["f"]))
                s.terms = t
                self.term[a["id"]] = t
            elif n == "sysnew":
                s = N[a["x"]]
                try:
                    if a["what"] == "freq":
                        s.frequency = self.freq(a["v"])
                    else:
                        s.operator = self.op(a["v"])
                finally:
                    self.term[a["id"]] = list(s.terms.values())[-1]
            else:
                raise KeyError(n)
        except (ValueError, TypeError):
            if a["res"] == "ok":
                raise
            return "err"
        return "ok"

    def check(self, a, outcome, o):
        if a["n"] != "init":
            r = differ("outcome of %s" % a, outcome, a["res"])
            if r:
                return r
        rng = self.rng
        total = int(np.prod(o["dims"]))
        todo = [("h", n) for n in self.node] + [("l", n) for n in self.node] + [("u", n) for n in self.node]
        if not self.last and self.sparse:
            todo = [t for t in todo if rng.random() < 0.2]
        rng.shuffle(todo)
        if rng.random() < 0.1:
            self.node[rng.choice(sorted(self.node))].delMatrices(_exclude=[])
        for k, n in todo:
            s = self.node[n]
            want = o["ham"][n - 1]
            if k == "l":
                got = [i for t in s.terms.values() for i in self.term if self.term[i] is t]
                r = differ("terms listed by system %d" % n, got, list(o["listed"][n - 1]))
                if not r and o["first"][n - 1]:
                    f = o["first"][n - 1][0]
                    r = differ("frequency of system %d" % n, s.frequency, None if f == -99 else FREQ.get(f, f))
                if r:
                    return r
            elif want and want[0]["f"] == -99:
                try:
                    s.totalHamiltonian
                except TypeError:
                    continue
                return "system %d has a Hamiltonian although one of its terms has no frequency" % n
            elif not want:
                h = s.totalHamiltonian
                if not (np.all(dense(h) == 0)):
                    return "Hamiltonian of system %d should vanish, it is %r" % (n, h)
            else:
                w = hamiltonian(want, total)
                if k == "u":
                    if n <= (3 if self.nested else 2) or np.abs(w).sum(axis=0).max() > 400:
                        continue
                    if not close(s.unitary(), scipy.linalg.expm(-1j * 0.125 * w), 1e-7):
                        return "unitary of system %d does not belong to its current Hamiltonian" % n
                elif not close(s.totalHamiltonian, w):
                    return "Hamiltonian of system %d is\n%s\nthe specification requires\n%s" % (n, dense(s.totalHamiltonian), w)
        return None


class Full(Ham):
    sparse = False


class Nested(Ham):
    nested = True
