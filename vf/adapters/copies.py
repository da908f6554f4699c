import numpy as np
import scipy.linalg
from .common import fresh, differ, dense, close
from .ham import FREQ, hamiltonian


def freq(v):
    return FREQ.get(v, v)


CALLS = []


def timed1(term, t):
    CALLS.append((1, term))


def timed2(term, t):
    CALLS.append((2, term))


class Copies:
    """Copies.tla <-> +, *, -, copy of quantum systems"""
    sparse = True

    def reset(self, init):
        self.qg = fresh()
        self.node, self.kinds = {}, {}
        self.new(1, "cav", 2, 1)

    def put(self, i, obj, kind=None):
        self.node[i] = obj
        obj.simulation.stepSize = 0.125
        if kind:
            self.kinds[i] = kind

    def new(self, i, kind, d, f):
        qg = self.qg
        kw = {} if kind == "undec" else {"frequency": freq(f)}
        if kind in ("cav", "sys"):
            kw["dimension"] = d
        if kind == "sys":
            kw["operator"] = qg.number
        if kind == "spin":
            kw["jValue"] = (d - 1) / 2
        cls = {"cav": qg.Cavity, "sys": qg.QuantumSystem, "undec": qg.QuantumSystem, "spin": qg.Spin, "qubit": qg.Qubit}[kind]
        self.put(i, cls(**kw), kind)

    def pre(self, obj):
        return [obj] + [y for x in obj.subSys.values() for y in self.pre(x)]

    def take(self, first, orig, obj):
        """the copy of a tree: its systems get the numbers first, first + 1, ..."""
        o = self.pre(orig)
        for k, x in enumerate(self.pre(obj)):
            if any(x is y for y in self.node.values()):
                return "a copy contains a system that existed before"
            if k < len(o) and type(x) is not type(o[k]):
                return "a copy contains a %s in the place of a %s" % (type(x).__name__, type(o[k]).__name__)
            self.put(first + k, x)

    def term(self, x, i):
        return list(self.node[x].terms.values())[i - 1]

    def step(self, a):
        n, N, rng, qg = a["n"], self.node, self.rng, self.qg
        op = lambda o: getattr(qg, o)
        if n == "new":
            self.new(a["id"], a["kind"], a["d"], a["f"])
        elif n == "copy":
            kw = {} if a["f"] == 0 else {"frequency": freq(a["f"])}
            if rng.random() < 0.3:
                kw["alias"] = "copy%d" % a["id"]
            c = N[a["x"]].copy(**kw)
            if "alias" in kw and N[a["x"]].getByNameOrAlias(kw["alias"]) is not c:
                return "the alias of a copy is not given"
            return self.take(a["id"], N[a["x"]], c) or "ok"
        elif n == "plus":
            A, B = N[a["a"]], N[a["b"]]
            first = max(N) + 1
            r = A + (B if rng.random() < 0.7 else B.name)
            if a["copied"]:
                new = list(r.subSys.values())[-1]
                e = self.take(first, A, new)
                if e:
                    return e
            if a["id"] in N:
                if r is not N[a["id"]]:
                    return "the sum is not the composite system that existed"
            else:
                if any(r is y for y in N.values()):
                    return "the sum is a system that existed before"
                self.put(a["id"], r)
        elif n == "times":
            first = max(N) + 1
            r = a["k"] * N[a["a"]]
            for x in list(r.subSys.values())[1:]:
                e = self.take(first, N[a["a"]], x)
                if e:
                    return e
                first += len(self.pre(x))
            self.put(a["id"], r)
        elif n == "minus":
            r = N[a["c"]] - (N[a["x"]] if rng.random() < 0.7 else N[a["x"]].name)
            if r is not N[a["c"]]:
                return "the difference is not the composite system"
        elif n == "term":
            x = N[a["x"]]
            x.createTerm(operator=op(a["op"]), order=a["o"], frequency=freq(a["f"]))
        elif n == "couple":
            q = [N[i] if rng.randrange(2) else N[i].name for i, _, _ in a["fac"]]
            N[a["c"]].createTerm(qSystem=q, operator=[op(o) for _, o, _ in a["fac"]], order=[k for _, _, k in a["fac"]],
                                 frequency=freq(a["f"]))
        elif n == "freq":
            t = N[a["x"]] if a["i"] == 1 and rng.randrange(2) else self.term(a["x"], a["i"])
            t.frequency = freq(a["f"])
        elif n == "oper":
            t = N[a["x"]] if a["i"] == 1 and rng.randrange(2) else self.term(a["x"], a["i"])
            multi = isinstance(self.term(a["x"], a["i"]).qSystem, (list, tuple))
            t.operator = [op(o) for o, _ in a["ops"]] if multi else op(a["ops"][0][0])
            t.order = [k for _, k in a["ops"]] if multi else a["ops"][0][1]
        elif n == "drop":
            N[a["x"]].removeTerm(self.term(a["x"], a["i"]))
        elif n == "timed":
            self.term(a["x"], a["i"]).timeDependency = [None, timed1, timed2][a["td"]]
        elif n == "dim":
            N[a["x"]].dimension = a["d"]
        elif n == "input":
            x = N[a["x"]]
            if x.subSys:
                x.initialState = qg.basis(x.dimension, a["i"])
            else:
                x.initialState = a["i"]
        return "ok"

    def check(self, a, outcome, o):
        if a["n"] != "init" and outcome != "ok":
            return "%s: %s" % (a, outcome)
        rng = self.rng
        if len(set(str(x.name) for x in self.node.values())) != len(self.node):
            return "two systems have the same name"
        # the Hamiltonian of a system: all terms listed in its tree, the factors placed as the specification says
        def tree(n):
            return [n] + [y for x in o[n - 1]["sub"] for y in tree(x)]

        def ham(n):
            return [{"f": t["f"], "fac": [(o[x - 1]["before"], o[x - 1]["dim"], o[x - 1]["after"], op, k) for x, op, k in t["fac"]]}
                    for y in tree(n) for t in o[y - 1]["terms"]]
        todo = [(k, n) for n in self.node for k in "shvu"]
        if not self.last and self.sparse:
            todo = [t for t in todo if rng.random() < 0.15]
        rng.shuffle(todo)
        for k, n in todo:
            x, w = self.node[n], o[n - 1]
            if k == "s":
                got = [next((i for i, y in self.node.items() if y is z), None) for z in x.subSys.values()]
                r = differ("sub-systems of system %d" % n, got, list(w["sub"]))
                r = r or differ("dimension of system %d" % n, int(x.dimension), w["dim"])
                r = r or differ("number of terms of system %d" % n, len(x.terms), len(w["terms"]))
                r = r or differ("system %d is not part of another system" % n, x.superSys is None, w["top"])
                CALLS.clear()
                x.unitary() if not hasattr(x, "_timeDependency") else x._timeDependency(0.5)
                want = [(t["td"], list(self.node[y].terms.values())[j]) for y in tree(n) for j, t in enumerate(o[y - 1]["terms"]) if t["td"]]
                if not r and not (len(CALLS) == len(want) and all(any(c == d and t is u for d, u in want) for c, t in CALLS)):
                    r = "%d terms of system %d follow functions of time, the specification requires %d" % (len(CALLS), n, len(want))
                for t in x.terms.values():
                    for q in t.qSystem if isinstance(t.qSystem, (list, tuple)) else [t.qSystem]:
                        if not any(q is y for y in self.pre(x)):
                            r = r or "a term of system %d acts on a system that is not part of it" % n
                for y in x.subSys.values():
                    if y.superSys is not x:
                        r = r or "a part of system %d does not refer to it" % n
            elif k == "v":
                try:
                    v = x.initialState if w["val"] != -3 else None
                    v = None if v is None else dense(v).ravel()
                except Exception:
                    v = "an error"
                e = {-3: None, -1: None, -2: "an error"}.get(w["val"], w["val"])
                if isinstance(v, np.ndarray):
                    ok = not isinstance(e, str) and e is not None and len(v) == w["dim"] and abs(v[e] - 1) < 1e-9 and abs(np.abs(v).sum() - 1) < 1e-9
                else:
                    ok = v is e or v == e
                r = None if ok else "initial state of system %d: the code gives %s, the specification requires %s" % (n, v, "basis state %s" % e if isinstance(e, int) else e)
            else:
                if w["kind"] == "undec":
                    continue
                terms = ham(n)
                m = hamiltonian(terms, w["total"])
                r = None
                if k == "h":
                    h = x.totalHamiltonian
                    if not terms:
                        r = None if np.all(dense(h) == 0) else "Hamiltonian of system %d should vanish" % n
                    elif not close(h, m):
                        r = "Hamiltonian of system %d is\n%s\nthe specification requires\n%s" % (n, dense(h), m)
                elif terms and w["total"] <= 12 and np.abs(m).sum(axis=0).max() < 400:
                    if not close(x.unitary(), scipy.linalg.expm(-1j * 0.125 * m), 1e-7):
                        r = "the free evolution of system %d does not belong to its Hamiltonian" % n
            if r:
                return r
        return None


class Full(Copies):
    sparse = False
