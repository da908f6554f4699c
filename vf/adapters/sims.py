import numpy as np
from scipy.linalg import expm
from .common import fresh, differ, dense, close

GRID = {"q1": (3.0, 1.0), "q2": (1.0, 0.5)}
RATIO = {1: 0.3, 2: 0.7, 3: 1.3, 91: 0.45, 92: 1.9}


class Sims:
    """Sims.tla <-> Simulation objects, the systems and protocols added to them"""

    def reset(self, init):
        self.qg = qg = fresh()
        nsys, of = init[0], init[1]
        self.q = {}
        for k in sorted(init[2]):
            self.q[k] = qg.Simulation(totalTime=GRID[k][0], stepSize=GRID[k][1])
        self.s = {}
        for i in range(nsys):
            self.adopt(self.make())
        self.p = {}
        for p, s in of.items() if isinstance(of, dict) else []:
            p = int(p)
            pro = qg.qProtocol(alias="pro%d" % p, **({"system": self.s[s]} if s else {}))
            self.p[p] = pro
            if s:
                self.fill(p, s)
        self.filled = {p for p in self.p if p < 90}

    def kind(self):
        return self.rng.choice(["Qubit", "Cavity", "Spin", "Qubit"])

    def kw(self):
        i = len(self.s) + 1
        return {"frequency": 1 + 0.7 * i, "alias": "sys%d" % i}

    def make(self):
        return getattr(self.qg, self.kind())(**self.kw())

    def adopt(self, s):
        if type(s).__name__ == "Cavity":
            s.dimension = 3
        elif type(s).__name__ == "Spin":
            s.jValue = 1
        s.initialState = [0, 1]
        self.s[len(self.s) + 1] = s

    def fill(self, p, s):
        st = self.qg.freeEvolution(system=self.s[s], ratio=RATIO[p if p > 90 else p % 10])
        self.p[p].addStep(st)

    def spell(self, o, sp, al):
        return {"ref": o, "name": o.name, "text": o.name.name, "alias": al}[sp]

    def sys(self, s, sp):
        return self.spell(self.s[s], sp, "sys%d" % s)

    def evol(self, e, sp="ref"):
        """an evolution, as it can be named: the free evolution of a system also by the system itself"""
        if e in self.p:
            return self.spell(self.p[e], "ref" if sp == "evol" else sp, "pro%d" % e)
        s = self.s[e // 10]
        return s._freeEvol if sp == "evol" else self.sys(e // 10, sp)

    def arg(self, a):
        xs = [self.sys(s, a["sp"]) for s in a["l"]]
        return xs[0] if a["f"] == "one" else tuple(xs) if a["f"] == "tuple" else xs

    def step(self, a):
        n, rng = a["n"], self.rng
        q = self.q[a["q"]]
        try:
            if n == "sys":
                f = rng.choice([q.addQSystems, q.addSubSys])
                f(self.arg(a))
            elif n == "new":
                cls = getattr(self.qg, self.kind())
                if a["how"] == "createQ":
                    s = q.createQSystems(cls, **self.kw())[0]
                else:
                    s = (q.addSubSys if a["how"] == "add" else q.createSubSys)(cls, **self.kw())
                self.adopt(s)
            elif n == "proto":
                p = self.p[a["p"]]
                kw = {}
                if a["rem"]:
                    kw["protocolRemove"] = self.evol(a["rem"], a["sp"])
                if a["s"]:
                    r = rng.randrange(3)
                    s = self.s[a["s"]]
                    if r and not a["rem"] and p.superSys is s:
                        if r == 1:
                            q.addQSystems(s, Protocol=p)
                        else:
                            q.addSubSys(s, p)
                    else:
                        q.addProtocol(p, s, **kw)
                else:
                    q.addProtocol(p, **kw)
            elif n == "protos":
                q.addProtocol([self.p[p] for p in a["l"]], *([self.s[a["s"]]] if a["s"] else []))
            elif n == "rmproto":
                q.removeProtocol(self.evol(a["e"], a["sp"]))
            elif n == "rmsys":
                x = self.sys(a["s"], a["sp"])
                (q.removeQSystems if rng.randrange(2) else q.removeSubSys)(x if a["f"] == "one" else [x])
            elif n == "reset":
                q.resetSubSys()
            elif n == "assign":
                q.subSys = self.arg(a)
            elif n == "sweep":
                x = a["x"]
                o, key = (self.s[-x], "frequency") if x < 0 else (self.evol(x, "evol"), "ratio")
                q.Sweep.createSweep(system=o, sweepKey=key, sweepList=[getattr(o, key)])
            elif n == "use":
                if rng.randrange(2):
                    q.qEvolutions
        except (KeyError, TypeError):
            return "err"
        return "ok"

    def check(self, a, outcome, o):
        if a["n"] != "init":
            r = differ("outcome of %s" % a, outcome, a["res"])
            if r:
                return r
        for p, s in o["of"].items():
            p = int(p)
            if s and p not in self.filled:
                self.fill(p, s)
                self.filled.add(p)
        for k, q in self.q.items():
            ent = o["ent"][k]
            want = [self.evol(e, "evol") for e in ent]
            of = [e // 10 if e not in self.p else o["of"][str(e)] for e in ent]
            got = list(q.subSys.items())
            r = differ("systems in %s" % k, [str(s.name) for s in q.qSystems], [str(self.s[s].name) for s in of])
            r = r or differ("evolutions in %s" % k, [str((e if isinstance(e, self.qg.named) else s._freeEvol).name) for e, s in got],
                            [str(e.name) for e in want])
            r = r or differ("number of protocols", len(q.protocols), len(ent))
            if r:
                return r
            swept = [[x for x in s.subSys.values()] for s in q.Sweep.subSys.values()]
            ids = {id(self.evol(10 * s, "evol")): 10 * s for s in self.s}
            ids.update({id(s): -i for i, s in self.s.items()})
            ids.update({id(p): i for i, p in self.p.items()})
            r = differ("objects swept by %s" % k, [[ids.get(id(x), str(x.name)) for x in s] for s in swept], [[x] for x in o["sw"][k]])
            if r:
                return r
            if ent and all(o["up"][s - 1] == k for s in of) and (self.last or a["n"] == "use" or self.rng.random() < 0.05):
                r = self.run(k, q, want, of)
                if r:
                    return r
        return None

    def run(self, k, q, evols, of):
        T, dt = GRID[k]
        calls = []
        q.compute = lambda sim, states: calls.append([dense(s) for s in states])
        q.run()
        q.compute = None
        want = []
        N = int(T // dt) + 1
        for i in range(N + 1):
            row = []
            for e, s in zip(evols, of):
                S = self.s[s]
                ratio = next((RATIO[p if p > 90 else p % 10] for p, x in self.p.items() if x is e), 1)
                row.append(expm(-1j * dense(S.totalHamiltonian) * ratio * dt * i) @ self.init(S))
            want.append(row)
        if len(calls) != len(want):
            return "%s took %d steps instead of %d" % (k, len(calls) - 1, N)
        for i, (g, w) in enumerate(zip(calls, want)):
            if len(g) != len(w) or not all(close(x, y, 1e-8) for x, y in zip(g, w)):
                return "states of %s after step %d do not belong to the evolutions %s" % (k, i, [str(e.name) for e in evols])
        names = [str(e.name) + "Results" if any(e is p for p in self.p.values()) else str(self.s[s].name) + "Results" for e, s in zip(evols, of)]
        r = differ("names of stored states", sorted(str(x) for x in q.states if len(q.states[x])), sorted(names))
        return r

    def init(self, S):
        v = np.zeros((S.dimension, 1))
        v[0] = v[1] = 2 ** -0.5
        return v
