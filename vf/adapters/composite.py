import numpy as np
from .common import fresh, differ, dense


class Composite:
    """Composite.tla <-> QuantumSystem / Cavity structures"""
    NL, NC = 3, 2
    sparse = True

    def reset(self, init):
        self.qg = qg = fresh()
        self.F = [1, 10, 100, 1000]
        self.node = {}
        for i in range(1, self.NL + 1):
            self.node[i] = qg.Cavity(dimension=2, frequency=self.F[i - 1], alias="leaf%d" % i)
        for i in range(self.NL + 1, self.NL + self.NC + 1):
            self.node[i] = qg.QuantumSystem(alias="comp%d" % i)
        self.term = {}

    def step(self, a):
        n, N = a["n"], self.node
        rng = self.rng
        try:
            if n == "add":
                x = N[a["x"]]
                way = rng.randrange(4)
                c = N[a["c"]]
                if way == 0:
                    c.addSubSys(x)
                elif way == 1:
                    c.addSubSys(x.alias[0])
                elif way == 2:
                    c.addSubSys([str(x.name)])
                else:
                    c.createSubSys(x)
            elif n == "remove":
                x, at = N[a["x"]], N[a["at"]]
                way = rng.randrange(3)
                if way == 0:
                    at.removeSubSys(x)
                elif way == 1:
                    at.removeSubSys([x.alias[0]])
                else:
                    at = at - x
            elif n == "reset":
                N[a["c"]].resetSubSys()
            elif n == "setdim":
                N[a["x"]].dimension = a["d"]
            elif n == "couple":
                i, j = N[a["i"]], N[a["j"]]
                if rng.randrange(2):
                    i = i.name
                t = N[a["c"]].createTerm(qSystem=[i, j], operator=[self.qg.number, self.qg.number], frequency=a["g"])
                self.term[a["g"]] = (N[a["c"]], t)
            elif n == "uncouple":
                c, t = self.term[a["g"]]
                c.removeTerm(t)
        except (ValueError, TypeError):
            if a["res"] == "ok":
                raise
            return "err"
        return "ok"

    def ham(self, n, want):
        h = self.node[n].totalHamiltonian
        if not hasattr(h, "shape"):      # nothing below it: the sum of no terms
            return None if h == 0 and not want["one"] else "Hamiltonian of node %d is %r" % (n, h)
        dims = want["dims"]
        occ = np.indices(dims).reshape(len(dims), -1)      # occupation number of every factor in every basis state
        w = sum((c * occ[p - 1] for c, p in want["one"]), np.zeros(occ.shape[1]))
        w = sum((c * occ[p - 1] * occ[q - 1] for c, p, q in want["two"]), w)
        m = dense(h)
        if m.shape != (len(w), len(w)):
            return "Hamiltonian of node %d has shape %s, the specification requires %d" % (n, m.shape, len(w))
        if np.abs(m - np.diag(w)).max() > 1e-9:
            return "Hamiltonian of node %d: the code gives diagonal %s, the specification requires %s" % (
                n, np.real(np.diag(m)).tolist(), w.tolist())
        return None

    def check(self, a, outcome, o):
        if a["n"] != "init":
            r = differ("outcome of %s" % a, outcome, a["res"])
            if r:
                return r
        rng = self.rng
        todo = [("d", n) for n in self.node] + [("h", n) for n in self.node] + [("s", 0), ("t", 0)]
        if not self.last and self.sparse:
            todo = [t for t in todo if rng.random() < 0.25]
        rng.shuffle(todo)
        for k, n in todo:
            r = None
            if k == "d":
                r = differ("dimension of node %d" % n, int(self.node[n].dimension), o["dim"][n - 1])
            elif k == "h":
                r = self.ham(n, o["ham"][n - 1])
            elif k == "s":
                for i in range(self.NC):
                    c = self.node[self.NL + 1 + i]
                    got = [k for s in c.subSys.values() for k in self.node if self.node[k] is s]
                    r = r or differ("sub-systems of node %d" % (self.NL + 1 + i), got, list(o["sub"][i]))
                    for s in c.subSys.values():
                        if s.superSys is not c:
                            r = r or "a sub-system of node %d does not refer back to it" % (self.NL + 1 + i)
            elif k == "t":
                for n in self.node:
                    r = r or differ("dimensions of node %d" % n, flat(self.node[n].subSysDimensions), flat(o["tree"][n - 1]))
            if r:
                return r
        return None


def flat(t):
    if isinstance(t, (list, tuple)):
        return tuple(flat(x) for x in t) or 1      # a composite system without parts has dimension 1
    return int(t)
