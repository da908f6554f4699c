import numpy as np
import scipy.sparse as sp
from .common import fresh, dense, close, Pure


class Tensor:
    """Tensor.tla <-> the linear algebra of QuantumToolbox"""
    MaxR = 5

    def reset(self, init):
        self.qg = fresh()
        self.touched = []
        self.tb = Pure(self.qg.QuantumToolbox, self.touched)
        self.reg, self.want = [], []

    def num(self, m):
        a = np.array([[complex(x[0], x[1]) for x in row] for row in m])
        if not a.imag.any() and self.rng.randrange(2):
            a = a.real.astype(int) if self.rng.randrange(2) else a.real
        return a

    def load(self, m):
        a, h = self.num(m), self.rng.randrange(4)
        return a if h < 2 else sp.csc_matrix(a) if h == 2 else sp.csr_matrix(a)

    def int(self, v):
        return self.rng.choice([int, np.int64])(v)

    def list(self, v):
        return self.rng.choice([list, np.array, tuple])(v) if v else list(v)

    def dens(self, m):
        return m if m.shape[0] == m.shape[1] else self.tb.states.densityMatrix(m)

    def step(self, a):
        la, st, ev, fn = self.tb.linearAlgebra, self.tb.states, self.tb.evolution, self.tb.functions
        n, R, rng = a["n"], self.reg, self.rng
        g = lambda k: R[a[k] - 1]
        if n in ("newop", "newket"):
            self.pending = True
            return "ok"
        if n == "tensor":
            return la.tensorProd(*[R[i - 1] for i in a["a"]])
        if n == "place":
            b, f = self.int(a["b"]), self.int(a["f"])
            how = rng.randrange(3)
            if how == 0:
                return self.tb.operators.compositeOp(g("i"), b, f)
            if how == 1:
                return self.tb.operators.compositeOp(operator=g("i"), dimA=f, dimB=b)
            return la.tensorProd(*([b] if b > 1 else []), g("i"), *([f] if f > 1 else []))
        if n == "mul":
            return la._matMulInputs(*[R[i - 1] for i in a["a"]])
        if n == "pow":
            return la._matPower(g("i"), a["p"])
        if n == "hc":
            return la.hc(g("i"))
        if n == "outer":
            if a["i"] == a["j"]:
                return rng.choice([la.outerProd, st.densityMatrix])(g("i"))
            return la.outerProd(g("i"), g("j"))
        if n == "ptrace":
            return la.partialTrace(self.list([k - 1 for k in a["keep"]]), self.list(self.dims[a["i"] - 1]), g("i"))
        if n == "sum":
            if rng.randrange(2) and sp.issparse(g("i")) == sp.issparse(g("j")):
                return st.weightedSum([g("i"), g("j")], [a["u"], a["v"]])
            return st.weightedSum([dense(g("i")), dense(g("j"))], (a["u"], a["v"]))
        if n in ("super", "heat"):
            A, B, X, f = g("i"), g("j"), g("h"), a["f"]
            e = rng.choice([None, sp.identity(A.shape[0], format="csc")])
            if f == "pre":
                so = ev._preSO(A, e)
            elif f == "post":
                so = ev._postSO(A, e)
            elif f == "prepost":
                so = ev._prepostSO(A, B)
            elif f == "lindblad":
                so = ev.dissipator(A, identity=e) * 2 if rng.randrange(2) else ev.dissipator(A, _double=True)
            else:
                ways = [lambda: ev.Liouvillian(B, [A], [3]), lambda: ev.Liouvillian(B, [A, A], [1, 2]), lambda: ev.Liouvillian(B, [A, A, A]),
                        lambda: ev.LiouvillianExp(B, 0.5, [A], [3], exp=False), lambda: ev.Liouvillian(B) + ev.Liouvillian(None, [A], [3])]
                if A.shape[0] > 1:
                    ways.append(lambda: ev.Liouvillian(B, [A, ev.dissipator(A)], [1, 2]))
                so = 2 * rng.choice(ways)()
            if rng.randrange(2):
                X = dense(X)
            if n == "heat":
                return self.tb.thermodynamics.HeatCurrent(so, B, X)
            return st.vec2Mat(so @ st.mat2Vec(X))
        if n == "inner":
            return la.innerProd(g("i"), g("j"))
        if n == "trace":
            return la.trace(g("i"))
        if n == "expect":
            if g("j").shape[1] == 1 and not rng.randrange(4):
                return fn._expectationColArr(dense(g("i")), np.hstack([dense(g("j"))] * 2))[1]
            return fn.expectation(g("i"), g("j"))
        if n == "purity":
            return st.purity(g("i"))
        if n == "fidelity":
            return fn.fidelityPure(g("i"), g("j"))
        if n == "norm":
            return la.norm(g("i")) ** 2 if rng.randrange(2) else la.innerProd(g("i"))
        raise AssertionError(n)

    def check(self, a, out, o):
        if a["n"] == "init":
            self.dims = []
            return None
        if self.touched:
            return "%s changed its arguments" % self.touched[0]
        if "v" in a and a["n"] not in ("sum",):
            want = complex(a["v"][0], a["v"][1])
            if not abs(complex(out) - want) <= 1e-9 * max(1, abs(want)):
                return "%s is %r instead of %r" % (a["n"], out, want)
        else:
            x = o["last"][0]
            m = self.load(x["m"]) if a["n"] in ("newop", "newket") else out
            w = np.array([[complex(*e) for e in row] for row in x["m"]])
            if not close(m, w, 1e-11):
                return "%s gives\n%s instead of\n%s" % (a["n"], dense(m), w)
            keep = self.rng.randrange(3)          # go on with the result, or with the same numbers in another form
            m = m if keep else self.load(x["m"])
            if len(self.reg) == self.MaxR:
                for v in (self.reg, self.want, self.dims):
                    v.pop(0)
            self.reg.append(m), self.want.append(w), self.dims.append(x["dims"])
        for i, (m, w) in enumerate(zip(self.reg, self.want)):
            if not close(m, w, 1e-11):
                return "%s changed its input or another matrix (register %d)" % (a["n"], i + 1)
        return None
