import numpy as np
from .common import fresh, differ, dense, close

UNIT = 0.125
NONE = -1000


class Time:
    """Time.tla <-> timeBase / stateBase parameters of Simulation, systems, protocols and steps"""
    objs = (1, 2, 3, 4, 5, 6, 7)
    sparse = 0.3
    runs = True

    def reset(self, init):
        self.qg = qg = fresh()
        self.cross = False     # systems in simulations of systems, which may lack what their runs need
        self.Q = qg.Simulation()
        self.A = qg.Qubit(frequency=1)
        self.A.initialState = 0
        self.B = qg.Qubit(frequency=1)
        self.B.initialState = 0
        self.P = qg.qProtocol(system=self.A)
        self.st = qg.freeEvolution(system=self.A)
        self.P.addStep(qg.freeEvolution(system=self.A))
        self.PB = qg.freeEvolution(system=self.B)
        self.o = {1: self.Q, 2: self.A, 3: self.A._freeEvol, 4: self.P, 5: self.st, 6: self.B, 7: self.PB}

    def sim(self, o):
        return self.o[o] if o == 1 else self.o[o].simulation

    def target(self, o):
        """assignments work on the object as well as on its simulation"""
        return self.o[o] if self.rng.randrange(2) else self.sim(o)

    def step(self, a):
        n, rng = a["n"], self.rng
        o = a.get("o")
        if n in ("T", "dt", "N"):
            v = a["v"] if n == "N" else a["v"] * UNIT
            if o != 1 and rng.randrange(3) == 0:
                setattr(self.o[o], {"T": "simTotalTime", "dt": "simStepSize", "N": "simStepCount"}[n], v)
            else:
                setattr(self.target(o), {"T": "totalTime", "dt": "stepSize", "N": "stepCount"}[n], v)
        elif n == "read":
            self.target(o).stepCount
        elif n == "smp":
            if o != 1 and rng.randrange(3) == 0:
                self.o[o].simSamples = a["v"]
            else:
                self.target(o).samples = a["v"]
        elif n == "del":
            v = bool(a["v"])
            if o != 1 and rng.randrange(3) == 0:
                self.o[o].simDelStates = v
            else:
                self.target(o).delStates = v
        elif n == "ist":
            self.o[o].initialState = a["v"]
        elif n == "attach":
            S = self.o[o]
            k = rng.randrange(3)
            to = self.sim(a["to"])
            self.cross = self.cross or a["to"] != 1
            if k == 0:
                to.addQSystems(S)
            elif k == 1:
                to.addSubSys(S)
            else:
                to.addProtocol(protocol=self.P if o == 2 else self.PB)
        elif n == "step":
            self.P.addStep(self.st)
        return "ok"

    def check(self, a, outcome, o):
        rng = self.rng
        todo = [x for x in self.objs if o["v"][x - 1] and (self.last or rng.random() < self.sparse)]
        rng.shuffle(todo)
        for x in todo:
            T, dt, N, smp, dl, ist = o["v"][x - 1]
            s = self.target(x)
            what = "of object %d" % x
            r = differ("totalTime " + what, s.totalTime, None if T == NONE else T * UNIT)
            r = r or differ("stepSize " + what, s.stepSize, None if dt == NONE else dt * UNIT)
            r = r or differ("samples " + what, s.samples, smp)
            r = r or differ("delStates " + what, bool(s.delStates), bool(dl))
            if not r and N != NONE:
                r = differ("stepCount " + what, self.sim(x).stepCount, N)
                tl = self.sim(x).timeList
                r = r or differ("timeList " + what, list(tl), [k * dt * UNIT for k in range(N + 1)])
            if r:
                return r
            if ist != NONE:
                want = np.zeros((2, 1))
                want[ist] = 1
                if not close(self.o[x].initialState, want, 1e-12):
                    return "initial state %s is %s, not basis state %d" % (what, dense(self.o[x].initialState).ravel(), ist)
        if self.runs and not self.cross and (self.last or rng.random() < 0.03):
            return self.run(o)

    def run(self, o):
        """running takes exactly the prescribed number of steps"""
        for x in (2, 6, 1):
            T, dt, N, smp, dl, ist = o["v"][x - 1] if o["v"][x - 1] else [NONE] * 6
            if N == NONE or (x == 1 and not self.Q.subSys):
                continue
            calls = []
            for S in (self.A, self.B):
                S.compute = lambda sys, st: calls.append((sys, 0))
            self.sim(x).run()
            n = len([c for c in calls if c[0] is (self.B if x == 6 else self.A)]) if x != 1 else \
                max(len([c for c in calls if c[0] is S]) for S in (self.A, self.B))
            self.A.compute = self.B.compute = None
            r = differ("number of states visited when running object %d" % x, n, N + 1)
            if r:
                return r
        return None


class Single(Time):
    objs = (2,)


class Full(Time):
    sparse = 1
