import numpy as np
from .common import fresh, differ, dense


def vector(w):
    w = np.asarray(w, float)
    return np.sign(w) * np.sqrt(np.abs(w)) / np.sqrt(np.abs(w).sum())


class States:
    """State.tla <-> initialState of nested quantum systems and of their protocols"""
    NL, NC = 3, 2
    sparse = True

    def reset(self, init):
        self.qg = qg = fresh()
        self.node = {i: qg.Cavity(dimension=2, frequency=1, alias="leaf%d" % i) for i in range(1, self.NL + 1)}
        for i in self.node:
            self.node[i]._inpCoef = i % 2 == 0
        for i in range(self.NL + 1, self.NL + self.NC + 1):
            self.node[i] = qg.QuantumSystem(alias="comp%d" % i)
        for x in (1, 2):
            self.node[self.NL + 1].addSubSys(self.node[x])
        self.sub = {self.NL + 1: [1, 2]}
        self.pro = {n: qg.freeEvolution(system=s, alias="P%d" % n) for n, s in self.node.items()}
        self.read = False

    # the python object for an input of the specification
    def value(self, n, i):
        k, rng = i["k"], self.rng
        if k == "parts":
            p = [self.value(x, j) for x, j in zip(self.sub[n], i["p"])]
            return tuple(p) if rng.random() < 0.3 else p
        if k == "vec":
            v = vector(i["v"]).reshape(-1, 1)
            if rng.randrange(2):
                from scipy.sparse import csc_matrix
                return csc_matrix(v)
            return v
        s = i["s"]
        if k == "idx":
            return s[0][0] if rng.random() < 0.7 else np.int64(s[0][0])
        if k == "list":
            return [x for x, _ in s] if rng.randrange(2) else tuple(x for x, _ in s)
        tot = sum(abs(w) for _, w in s)
        if k == "pop":          # normalised or not, numbers of any type
            f = rng.choice([lambda w: w / 7, lambda w: w / tot, lambda w: w, lambda w: 2.5 * w, lambda w: np.float64(w) / tot])
            return {x: f(w) for x, w in s}
        f = rng.choice([3, 1, tot ** -0.5, 0.1])
        return {x: (f if w > 0 else -f) * abs(w) ** 0.5 for x, w in s}

    def bad(self, n, how):
        d = self.node[n].dimension
        parts = [0] * len(self.sub.get(n, []))
        v = np.zeros((d + 1, 1))
        v[0] = 1
        return {"text": "up", "str": {"a", "b"}, "vec": v, "short": parts[:-1] or 3, "long": parts + [0], "int": 0,
                "textin": parts[:-1] + ["up"], "vecin": parts[:-1] + [v if d + 1 != self.lastdim(n) else v[:-1]]}[how]

    def lastdim(self, n):
        return self.node[self.sub[n][-1]].dimension if n in self.sub and self.sub[n] else None

    def give(self, obj, n, v):
        way = self.rng.randrange(3)
        if way == 0:
            obj._named__setKwargs(initialState=v)
        else:
            obj.initialState = v

    def step(self, a):
        n, N = a["n"], self.node
        if self.rng.random() < 0.4:      # reading a state in between changes nothing
            for x in self.rng.sample(sorted(N), 2):
                self.get(self.rng.choice([N[x], N[x].simulation, N[x]._freeEvol, self.pro[x]]), lambda: 0)
        try:
            if n == "set":
                self.give(N[a["x"]], a["x"], self.value(a["x"], a["i"]))
            elif n == "own":
                self.give(self.pro[a["x"]], a["x"], self.value(a["x"], a["i"]))
            elif n == "bad":
                o = N[a["x"]] if a["on"] == "system" else self.pro[a["x"]]
                o.initialState = self.bad(a["x"], a["how"])
            elif n == "setdim":
                N[a["x"]].dimension = a["d"]
            elif n == "add":
                N[a["c"]].addSubSys(N[a["x"]])
                self.sub.setdefault(a["c"], []).append(a["x"])
            elif n == "remove":
                N[a["c"]].removeSubSys(N[a["x"]])
                self.sub[a["c"]].remove(a["x"])
        except Exception:
            if a["res"] == "ok":
                raise
            return "err"
        return "ok"

    def get(self, obj, want):
        try:
            s = obj.initialState
        except Exception as e:
            return "err"
        return s

    def compare(self, what, obj, want):
        s = self.get(obj, want)
        if want["t"] == "err":
            return None if isinstance(s, str) else "initial state of %s: the code gives %s, the specification an error" % (what, show(s))
        if isinstance(s, str):
            return "initial state of %s: the code raises an error, the specification requires %s" % (what, want)
        if want["t"] == "none":
            return None if s is None else "initial state of %s: the code gives %s, the specification None" % (what, show(s))
        if s is None:
            return "initial state of %s: the code gives None, the specification requires %s" % (what, want["v"])
        v, w = dense(s), vector(want["v"]).reshape(-1, 1)
        if v.shape != w.shape or not np.abs(v - w).max() < 1e-9:
            return "initial state of %s: the code gives %s, the specification requires %s" % (what, show(s), w.ravel().round(4).tolist())
        return None

    def check(self, a, outcome, o):
        if a["n"] != "init":
            r = differ("outcome of %s" % a, outcome, a["res"])
            if r:
                return r
        todo = []
        for n, s in self.node.items():
            if o["v"][n - 1]["t"] == "skip":
                continue
            want = o["v"][n - 1]
            todo += [("node %d" % n, s, want), ("the simulation of node %d" % n, s.simulation, want),
                     ("the free evolution of node %d" % n, s._freeEvol, want)]
            own = o["p"][n - 1]
            todo.append(("a protocol of node %d" % n, self.pro[n], own if own["t"] != "skip" else want))
        if not self.last and self.sparse:
            todo = [t for t in todo if self.rng.random() < 0.3]
        self.rng.shuffle(todo)
        for what, obj, want in todo:
            r = self.compare(what, obj, want)
            if r:
                return r
        return None


def show(s):
    return None if s is None else dense(s).ravel().round(4).tolist()
