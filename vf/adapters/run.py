import multiprocessing
import time
import numpy as np
from .common import fresh, differ, dense, close

U = 0.125
NONE = -1000
INI = ({0: 1, 1: 2}, {0: 2, 1: 1})
AMP = (np.sqrt([1 / 3, 2 / 3]), np.sqrt([2 / 3, 1 / 3]))
KINDS = {"pre": "preCompute", "com": "compute", "post": "postCompute"}

# read by the callbacks, which also run in worker processes (as pickled copies of everything but this)
G = {"names": {}, "codes": {}, "tdc": {}, "events": [], "times": {}, "style": 0, "sleep": 0, "masked": False}


def vec(st):
    a = AMP[st["ini"]]
    ph = np.exp(1j * st["p"] / 12 * U)
    v = np.zeros((2, 1), dtype=complex)
    f = st["flip"]
    v[f, 0] = a[0] / ph
    v[1 - f, 0] = a[1] * ph
    return v * (-1j) ** st["g"]


def thing(obj, key):
    return obj.getByNameOrAlias(G["names"][key])


def params(obj):
    sim = thing(obj, 0)
    A, B, e1 = thing(obj, 11), thing(obj, "fB"), thing(obj, "e1")
    return [A.frequency, B.frequency, sim.totalTime / U, sim.stepSize / U, e1.simulation.samples, obj.auxDict.get("zeta", 0), thing(obj, "t1").frequency, thing(obj, "x").phase, obj.auxObj.eta]


def plain(s):
    """the state of B, if the others are in state 0"""
    s = dense(s)
    if s.shape[0] > 2 and np.abs(s.reshape(2, -1)[:, 1:]).max() < 1e-12:
        s = s.reshape(2, -1)[:, :1]
    return s


def states_of(x):
    return [plain(s) for s in (x if isinstance(x, (list, tuple)) else [x])]


def record(obj, kind, tok):
    r, style = obj.qRes, G["style"]
    if style % 3 == 0:
        r.singleResult = kind, tok
    elif style % 3 == 1:
        obj.resultsDict[kind].append(tok)
    else:
        r.resultsMethod(kind, tok) if style % 2 else r.resultsMethod(tok, kind)


def twice(w):
    return [twice(x) for x in w] if isinstance(w, list) else dict(w, sum=2 * w["sum"] + w["n"])


def common(obj, kind, st):
    code = G["codes"][obj.name]
    f = params(obj)
    given = [] if st is None else states_of(st)
    if kind == "com":
        k = len(obj.qRes.resultsDict["com"])
        # averages of two keys, which do not mix
        if G["style"] % 2:
            obj.qRes.resAverage = ("avg2", 2 * k + 1)
        obj.qRes.resAverage = ("avg", k)
        if not G["style"] % 2:
            obj.qRes.resAverage = ("avg2", 2 * k + 1)
    record(obj, kind, ("tok", f, given))
    if kind != "com":
        obj.qRes.calculated = kind, ("tok", f, given)
    cur = {p: thing(obj, p).currentState for p in (1, 2, 3)}
    cur = {p: None if s is None else plain(s) for p, s in cur.items()}
    smp = [dense(s) for s in thing(obj, 2).sampleStates] if kind == "com" else None
    G["events"].append((code, kind, f, given, cur, smp))
    if G["sleep"]:
        time.sleep(((hash((f[0], f[1], f[2], f[4], f[5])) * 7919) % G["sleep"]) / 1000.0)


def cb_pre(obj):
    common(obj, "pre", None)


def cb_com(obj, st):
    common(obj, "com", st)


def cb_post(obj):
    common(obj, "post", None)


def td_funA(term, t):
    G["times"][11].append(t / U)
    term.frequency = G["tdc"][11] + t / U


def td_funB(term, t):
    G["times"][12].append(t / U)
    term.frequency = G["tdc"][12] + t / U


def td_x1(term, t):
    G["times"][21].append(t / U)
    term.frequency = G["tdc"][21] + t / U


def td_x2(term, t):
    G["times"][22].append(t / U)
    term.frequency = G["tdc"][22] + 2 * t / U


def evolve(sim):
    """an evolution function of the user's, that does what the default does"""
    type(sim)._evolFuncDefault(sim)


def cust(sweep):
    v = sweep.sweepList[sweep.index]
    for s in sweep.subSys.values():
        s.frequency = 10 + 2 * v


FUN = {"pre": cb_pre, "com": cb_com, "post": cb_post}


class Run:
    """Run.tla <-> Simulation, Sweep, _sweep, qResults, modularSweep"""
    aspects = {"f", "given", "cur", "smp", "times", "results", "states", "after"}
    watch = None      # only the callbacks of these objects are compared
    pars = True

    def reset(self, init):
        self.qg = qg = fresh()
        qg.classes.QSim._poolMemory.coreCount = None
        self.A = A = qg.Qubit(frequency=1, alias="sysA")
        self.B = B = qg.Qubit(frequency=2, alias="sysB")
        A.initialState = INI[0]
        # system 12 is B itself, or a composite system that contains it
        self.S12 = S12 = B
        for _ in range(self.rng.randrange(3)):
            Z = qg.Qubit(frequency=0)
            self.S12 = S12 = qg.QuantumSystem(subSys=[S12, Z])
        B.initialState = INI[0]
        if S12 is not B:
            S12.initialState = [INI[0], 0] if B.superSys is S12 else [[INI[0], 0], 0]
        A.auxDict.clear()
        A.auxObj.eta = 0
        self.P = P = qg.qProtocol(system=A, alias="proP")
        self.e1 = qg.freeEvolution(system=A)
        self.x = qg.xGate(system=A, angle=np.pi)
        self.e2 = qg.freeEvolution(system=A)
        # two more terms of the composite system (of B, if there is none), couplings that have no effect on the other systems
        self.extra = []
        for i in (0, 1):
            T = self.rng.choice([x for x in (B, B.superSys, S12) if x is not None])
            if T is B:
                t = B.createTerm(operator=qg.Jz, frequency=0)
            else:
                o = [x for x in T.subSys.values() if x is not B and not x.subSys]
                ops = [[B, o[0]], [qg.Jz, qg.sigmaz]]
                if self.rng.randrange(2):
                    ops = [x[::-1] for x in ops]
                t = T.createTerm(qSystem=ops[0], operator=ops[1], frequency=0) if self.rng.randrange(3) else T.createTerm(qSystem=B, operator=qg.Jz, frequency=0)
            self.extra.append(t)
        self.sim = None
        self.ev, self.pos = [], 0
        G.update(tdc={}, events=[], times={i: [] for i in (11, 12, 21, 22)}, style=self.rng.randrange(6), sleep=0)

    def build(self, o):
        """the simulation itself, once the specification has said which one"""
        qg, A, B, rng = self.qg, self.A, self.B, self.rng
        self.home = o["h"]
        v = o["var"]
        last = self.e1.hc if v["last"] == "back" else self.e2 if v["last"] == "evo" else self.e1
        self.P.addStep(self.e1, self.x.hc if v["ghc"] else self.x, last)
        self.sim = qg.Simulation(alias="simQ") if self.home == "Q" else A.simulation
        self.obj = {0: self.sim, 1: A._freeEvol, 2: self.P, 3: self.S12._freeEvol, 11: A, 12: self.S12}
        G["names"] = {k: v.name for k, v in self.obj.items()}
        G["names"].update(e1=self.e1.name, fB=B.name, x=self.x.name, t1=self.extra[0].name)
        G["codes"] = {v.name: k for k, v in self.obj.items()}
        for p in o["p"]:
            self.addpro(p, first=len(o["p"]) == 1 and self.home == "A")
        s = self.sim
        if rng.randrange(2):
            s.stepSize = 2 * U
            s.totalTime = o["T"] * U
        else:
            s.totalTime = o["T"] * U
            s.stepSize = 2 * U
        for x in self.obj.values():
            for k in KINDS:
                self.callback(x, k, k in o["cb"][str(self.code(x))])
        if rng.randrange(3) == 0:
            s.evolFunc = evolve
        self.sw, self.tds = [], None

    def code(self, x):
        return next(k for k, v in self.obj.items() if v is x)

    def addpro(self, p, first=False):
        sim, rng = self.sim, self.rng
        S = self.S12 if p == 3 else self.A
        if first and rng.randrange(2):
            return                      # a run adds the system itself
        if self.home == "A" and p != 1 and rng.randrange(3) == 0:
            e = self.P if p == 2 else S._freeEvol
            return self.A.addProtocol(e, S) if p == 3 or rng.randrange(2) else self.A.addProtocol(protocol=e)
        if p == 2:
            if rng.randrange(2):
                sim.addProtocol(self.P)
            elif rng.randrange(2):
                sim.addQSystems(self.A, Protocol=self.P)
            else:
                sim.addSubSys(self.A, self.P)
        elif S in sim.subSys.values() or rng.randrange(2):
            sim.addProtocol(protocol=S._freeEvol)
        elif rng.randrange(2):
            sim.addQSystems(S)
        else:
            sim.addSubSys(S)

    @staticmethod
    def callback(x, k, on):
        setattr(x, KINDS[k], FUN[k] if on else None)

    def system(self, t):
        A, B, rng = self.A, self.B, self.rng
        if t in ("fA", "cust", "iniA", "aux"):
            s = rng.choice([A, A.name, "sysA", None if self.home == "A" else A])
        elif t == "fB":
            s = rng.choice([B, B.name, "sysB"])
        elif t == "fAB":
            s = [A, "sysB"]
        elif t in ("T", "dt"):
            s = self.sim
        elif t == "gp":
            s = rng.choice([self.x, self.x.name])
        elif t == "fx":
            s = rng.choice([self.extra[0], self.extra[0].name])
        elif t == "auxo":
            s = self.sim.auxObj
        else:
            s = self.e1.simulation
        key = {"gp": "phase", "fx": "frequency", "auxo": "eta", "fA": "frequency", "fB": "frequency", "fAB": "frequency", "cust": "frequency", "iniA": "initialState", "aux": "zeta",
               "T": "totalTime", "dt": "stepSize", "s1": "samples"}[t]
        return s, key

    @staticmethod
    def real(t, vals):
        return [INI[v] if t == "iniA" else v * U if t in ("T", "dt") else v for v in vals]

    def listed(self, t, vals):
        """the list in one of the forms a sweep takes"""
        r = self.real(t, vals)
        f = self.rng.randrange(4)
        if f == 0:
            return tuple(r)
        if f == 1 and t not in ("iniA", "s1"):
            return np.array(r, dtype=float)
        if f == 2 and t in ("fA", "fB", "fAB", "aux", "cust", "fx", "auxo") and len(r) > 1 and all(b - a == r[1] - r[0] != 0 for a, b in zip(r, r[1:])):
            return range(r[0], r[-1] + (1 if r[1] > r[0] else -1), r[1] - r[0])
        return r

    def ranges(self, t, vals):
        """the list as (min, max, step), linear or logarithmic, if it is one"""
        if t in ("fA", "fB", "fAB", "aux", "fx", "auxo") and len(vals) > 1 and min(vals) > 0 and all(b * vals[0] == a * vals[1] for a, b in zip(vals, vals[1:])) and self.rng.randrange(3) == 0:
            return dict(sweepMin=np.log10(vals[0]), sweepMax=np.log10(vals[-1]), sweepStep=len(vals), logSweep=True)
        if t in ("fA", "fB", "fAB", "T", "dt", "aux", "fx", "auxo") and len(vals) > 1 and self.rng.randrange(2):
            d = vals[1] - vals[0]
            if d and all(b - a == d for a, b in zip(vals, vals[1:])):
                r = self.real(t, [vals[0], vals[-1], d])
                return dict(sweepMin=r[0], sweepMax=r[1], sweepStep=r[2], logSweep=False)
        return None

    def step(self, a):
        n, rng, sim, A, B = a["n"], self.rng, self.sim, self.A, self.B
        if n == "set":
            t, v = a["t"], a["v"]
            if t == "fA":
                A.frequency = v
            elif t == "fB":
                B.frequency = v
            elif t in ("T", "dt"):
                setattr(sim, {"T": "totalTime", "dt": "stepSize"}[t], v * U)
            elif t == "s1":
                self.e1.simulation.samples = v
            elif t == "iniA":
                A.initialState = INI[v]
            elif t == "aux":
                A.auxDict["zeta"] = v
            elif t == "gp":
                self.x.phase = v
            elif t == "fx":
                self.extra[0].frequency = v
            elif t == "auxo":
                B.auxObj.eta = v
        elif n == "own":
            t, v = a["t"], a["v"]
            if t == "pdt":
                self.P.simulation.stepSize = v * U
            elif t == "iniP":
                self.P.initialState = INI[v]
            elif t == "del":
                sim.delStates = bool(v)
            else:
                self.P.simulation.delStates = bool(v)
        elif n == "cb":
            self.callback(self.obj[a["o"]], a["k"], a["on"])
        elif n == "addsweep":
            s, key = self.system(a["t"])
            kw = self.ranges(a["t"], a["v"]) or dict(sweepList=self.listed(a["t"], a["v"]))
            if a["c"] or rng.randrange(2):
                kw["combinatorial"] = a["c"]
            if a["t"] == "cust":
                kw["sweepFunction"] = cust
            if s is not None or rng.randrange(2):
                kw["system"] = s
            self.sw.append((sim.Sweep.createSweep(sweepKey=key, **kw), a["t"]))
        elif n == "editsweep":
            sw, t = self.sw[a["i"] - 1]
            kw = self.ranges(t, a["v"])
            sw.sweepList = None if kw else self.listed(t, a["v"])
            for k, v in (kw or {}).items():
                setattr(sw, k, v)
        elif n == "combsweep":
            self.sw[a["i"] - 1][0].combinatorial = a["c"]
        elif n == "dropsweep":
            sw, t = self.sw.pop(a["i"] - 1)
            x = rng.choice([sw, sw.name])
            (sim if rng.randrange(2) else sim.Sweep).removeSweep(x)
        elif n == "joinsweep":
            sw, t = self.sw[a["i"] - 1]
            s, _ = self.system(a["t"])
            s = s or A
            if rng.randrange(2):
                sw.system = s
            else:
                sw.addSubSys(s)
            self.sw[a["i"] - 1] = sw, "fAB"
            return differ("the systems of the sweep", sw.system, [A, B] if a["t"] == "fB" else [B, A])
        elif n == "dropsys":
            S, name = {11: (A, "sysA"), 12: (B, "sysB")}[a["s"]]
            (sim if a["all"] else sim.Sweep).removeSweep(rng.choice([S, S.name, name, [S]]))
            new = []
            for sw, t in self.sw:
                if t == "fAB":
                    t = "fB" if S is A else "fA"
                    if sw.system is not (B if S is A else A):
                        return "the systems of the sweep are %r" % (sw.system,)
                elif t == "fB" and S is B or t in ("fA", "cust", "iniA", "aux") and S is A:
                    continue
                new.append((sw, t))
            self.sw = new
            if a["all"] and S is B:
                self.tds = None
            return differ("the sweeps", list(sim.Sweep.sweeps.values()), [x for x, _ in new])
        elif n == "addpro":
            self.addpro(a["p"])
        elif n == "tdf":
            S, fun = {11: (A, td_funA), 12: (B, td_funB)}[a["s"]]
            term = list(S.terms.values())[0]
            term.timeDependency = None if a["v"] == NONE else fun
            G["tdc"][a["s"]] = a["v"]
        elif n == "tdx":
            term = self.extra[a["i"] - 1]
            term.timeDependency = None if a["v"] == NONE else [td_x1, td_x2][a["i"] - 1]
            G["tdc"][20 + a["i"]] = a["v"]
            if a["v"] == NONE:
                term.frequency = a["fx"]
        elif n == "tds":
            if not a["v"]:
                sim.timeDependency.removeSweep(self.tds)
                self.tds = None
            elif self.tds is None:
                self.tds = sim.timeDependency.createSweep(system=B, sweepKey="frequency", sweepList=list(a["v"]))
            else:
                self.tds.sweepList = list(a["v"])
        elif n == "run":
            return self.run(a)
        return None

    def run(self, a):
        rng = self.rng
        G["events"], G["times"] = [], {i: [] for i in (11, 12, 21, 22)}
        go = self.A.runSimulation if self.home == "A" and rng.randrange(2) else self.sim.run
        mode = a["mode"]
        G["sleep"] = 4 if mode == "pool" and rng.randrange(3) == 0 else 0
        if mode == "serial":
            self.ret = go(p=False)
        elif mode == "default":
            self.ret = go()
        elif rng.randrange(6) == 0:
            p = multiprocessing.Pool(processes=a["c"])
            self.ret = go(p=p)
            p.close()
        elif a["c"] == multiprocessing.cpu_count() - 1 and rng.randrange(2):
            self.ret = go(p=True, coreCount=rng.choice(["all", "All"]))
        elif a["c"] == self.remembered() and rng.randrange(2):
            self.ret = go(p=True)
        else:
            self.ret = go(p=True, coreCount=a["c"])
        G["sleep"] = 0
        self.ev = [e for e in G["events"] if self.watch is None or (e[0], e[1]) in self.watch]
        self.pos = 0
        self.want_times = {i: [] for i in (11, 12, 21, 22)}

    def remembered(self):
        """the number of processes when it is not given: that of the last parallel run, or all but one"""
        n = self.qg.classes.QSim._poolMemory.coreCount
        return multiprocessing.cpu_count() - 1 if n is None else n

    # ------------------------------------------------------------------ comparison
    def check(self, a, outcome, o):
        n = a["n"]
        if n == "init":
            self.build(o)
        elif n in ("joinsweep", "dropsys"):
            return outcome
        elif n == "run":
            self.parallel = None
        elif n == "call":
            if self.par_run(a) or (self.watch is not None and (a["o"], a["k"]) not in self.watch):
                return None
            return self.call(a, o)
        elif n == "evolve":
            for s in o["on"]:
                self.want_times[s].append(o["t"])
        elif n == "finish":
            return self.finish(a, o)
        return None

    def par_run(self, a):
        """the callbacks of a parallel run happen in other processes"""
        return not self.ev and self.pos == 0 and self.qg.classes.QSim._poolMemory.coreCount is not None

    def call(self, a, o):
        where = "callback '%s' of object %d at step %d" % (a["k"], a["o"], a["at"])
        if self.pos >= len(self.ev):
            return "the specification requires %s, but no further callback was called" % where
        code, kind, f, given, cur, smp = self.ev[self.pos]
        self.pos += 1
        if (code, kind) != (a["o"], a["k"]):
            return "the specification requires %s, the code called '%s' of object %d" % (where, kind, code)
        asp = self.aspects
        r = None
        if "f" in asp:
            r = self.fpar(where, f, o["f"])
        if not r and "given" in asp and a["k"] == "com":
            r = self.svec("states given to " + where, given, o["g"])
        if not r and "cur" in asp:
            r = self.svec("current states during " + where, [cur[p] for p in o["pros"]], o["c"])
        if not r and "smp" in asp and o["smp"]:
            r = self.svec("sampled states at " + where, smp, o["smp"])
        return r

    @staticmethod
    def fpar(where, f, want):
        for name, x, y in zip(("frequency of A", "frequency of B", "total time", "step size", "samples", "aux", "frequency of a coupling", "phase of the gate", "attribute of auxObj"), f, want):
            if y != NONE and abs(x - y) > 1e-9:
                return "%s during %s: the code has %s, the specification requires %s" % (name, where, x, y)
        return None

    @staticmethod
    def svec(what, got, want):
        if len(got) != len(want):
            return "%s: %d states, the specification requires %d" % (what, len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            if g is None or not close(g, vec(w), 1e-8):
                return "%s: state %d is %s, the specification requires %s" % (what, i, None if g is None else g.ravel(), vec(w).ravel())
        return None

    def finish(self, a, o):
        if a["par"] == 0 and self.pos != len(self.ev):
            return "the code called %d callbacks, the specification requires %d" % (len(self.ev), self.pos)
        asp = self.aspects
        r = None
        if "times" in asp and a["par"] == 0:
            dd = lambda s: [x for i, x in enumerate(s) if i == 0 or s[i - 1] != x]
            for s in (11, 12, 21, 22):
                r = r or differ("times passed to the function of time of system %d" % s, dd([t for t in G["times"][s] if t != 0]),
                                dd(self.want_times[s]))
        if not r and "after" in asp:
            p = o["par"]
            f = params(self.sim)
            r = self.fpar("the time after the run", f, [p["fA"], p["fB"], p["T"], p["dt"], p["s1"], p["aux"], p["fx"] if self.extra[0].timeDependency is None else NONE, p["gp"], p["auxo"]])
        if not r and "results" in asp:
            for c in (0, 11, 12) + tuple(o["pros"]):
                x = self.obj[c]
                d = x.qRes.resultsDict if self.rng.randrange(2) else x.resultsDict
                for k in ("pre", "com", "post", "avg", "avg2"):
                    w = o["r"][str(c)][k.rstrip("2")]
                    r = r or self.nested("results '%s' of object %d" % (k, c), d.get(k, []), twice(w) if k == "avg2" else w, ())
                if not r and a["par"] == 0:
                    for k in ("pre", "post"):
                        r = r or self.nested("calculated '%s' of object %d" % (k, c), x.qRes.calculated.get(k, []), o["calc"][str(c)][k], ())
        if not r and "states" in asp:
            for p in o["pros"]:
                key = (self.P if p == 2 else self.S12 if p == 3 else self.A).name + "Results"
                want = o["r"][str(p)]["st"]
                r = r or self.nested("states of protocol %d" % p, self.sim.states.get(key, []), want, ())
                owner = self.P if p == 2 else self.S12 if p == 3 else self.A
                if not r and want:
                    r = self.nested("states of protocol %d, from its owner" % p, owner.states.get(key, []), want, ())
                if not r and p == 1 and self.home == "A":
                    r = self.nested("states returned by the run", self.ret, want, ())
        return r

    def nested(self, what, got, want, idx):
        at = "%s at %s" % (what, list(idx))
        if isinstance(want, list):
            if not isinstance(got, list):
                return "%s: a single item where the specification requires a list of %d" % (at, len(want))
            if len(got) != len(want):
                return "%s: %d items, the specification requires %d" % (at, len(got), len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                r = self.nested(what, g, w, idx + (i,))
                if r:
                    return r
            return None
        if isinstance(got, list):
            return "%s: a list where the specification requires a single item" % at
        if "n" in want:
            return None if abs(got - want["sum"] / want["n"]) < 1e-9 else differ(at, got, want["sum"] / want["n"])
        if "f" in want:
            r = self.fpar(at, got[1], want["f"])
            return r or self.svec(at, got[2], want["s"])
        return self.svec(at, [plain(got)], [want])
