import numpy as np
import scipy.sparse as sp
from .common import fresh, dense, Pure

X, WX = np.polynomial.legendre.leggauss(120)


def integral(f, a, b):
    x = (b - a) / 2 * X + (a + b) / 2
    return (b - a) / 2 * sum(w * f(float(y)) for w, y in zip(WX, x))


def frac(x):
    return x[0] / x[1]


class Spectra:
    """Spectra.tla <-> rmtDistributions, eigenVecVal"""

    def reset(self, init):
        fresh()
        from quanguru.QuantumToolbox import rmtDistributions, eigenVecVal
        self.touched = []
        self.rmt, self.ev = Pure(rmtDistributions, self.touched), Pure(eigenVecVal, self.touched)

    def step(self, a):
        return "ok"

    def check(self, a, out, o):
        r = None if a["n"] == "init" else getattr(self, "do_" + a["n"])(a, o)
        return r or ("%s changed its arguments" % self.touched[0] if self.touched else None)

    def do_vector(self, a, o):
        f = self.rmt.EigenVectorDist

        def part(t):          # x = sin(t)^2
            x = np.sin(t) ** 2
            return f(x, a["d"], a["beta"]) * x ** a["k"] * 2 * np.sin(t) * np.cos(t)
        got = integral(part, 0, min(np.pi / 2, 12 / np.sqrt(a["d"])))      # nothing is left beyond
        if not abs(got - frac(o)) <= 1e-7 * frac(o):
            return "moment %d of the eigenvector distribution for beta = %d in %d dimensions is %r instead of %r" % (a["k"], a["beta"], a["d"], got, frac(o))
        if a["beta"] == 1 and abs(f(0.3, a["d"]) - f(0.3, a["d"], beta=1)) > 0:
            return "beta is 1 unless it is given"
        return None

    def do_spacing(self, a, o):
        want, b = frac(o) * np.pi ** o[2], a["beta"]
        for f in (self.rmt.WignerDyson, self.rmt.WignerSurmise):
            got = integral(lambda x: f(x, b) * x ** a["k"], 0, 3) + integral(lambda x: f(x, b) * x ** a["k"], 3, 12) + integral(lambda x: f(x, b) * x ** a["k"], 12, 60)
            if not abs(got - want) <= 1e-7:
                return "moment %d of the spacings for beta = %d is %r instead of %r" % (a["k"], b, got, want)
            # repulsion of neighbours
            if not abs(f(2e-5, b) / f(1e-5, b) - 2 ** b) <= 1e-3:
                return "small spacings for beta = %d: %r" % (b, f(2e-5, b) / f(1e-5, b))
        if abs(self.rmt.WignerDyson(0.7) - self.rmt.WignerDyson(0.7, 1)) > 0:
            return "beta is 1 unless it is given"
        return None

    def do_events(self, a, o):
        want = np.exp(-a["l"]) * frac(o)
        for x in (a["x"], float(a["x"])):
            got = self.rmt.Poissonian(x, a["l"])
            if not abs(got - want) <= 1e-9:
                return "probability of %r events where %d are expected is %r instead of %r" % (x, a["l"], got, want)
        return None

    def do_ket(self, a, o):
        d = len(a["w"])
        ket = np.array([[x] for x in a["w"]]) * np.exp(1j * np.arange(d)[:, None])
        ket = ket / np.linalg.norm(ket)
        base = [np.eye(d)[:, [i]] for i in range(d)]
        turn = np.linalg.qr(np.arange(d * d).reshape(d, d) ** 2 % 7 + 1j * np.eye(d))[0]
        for mk in (np.array, sp.csc_matrix):
            for bs, k in ((base, ket), ([turn[:, [i]] for i in range(d)], turn @ ket)):
                for symp in (True, False):
                    reg, sym = self.ev.eigVecStatKet([mk(b) for b in bs], mk(k), symp)
                    if not np.allclose(reg, [frac(x) for x in o["c"]], atol=1e-9):
                        return "components of %s: %s" % (a["w"], reg)
                    if not (np.allclose(sym, [frac(x) for x in o["p"]], atol=1e-9) if symp else list(sym) == []) or len(sym) != (d // 2 if symp else 0):
                        return "pairs of components of %s: %s" % (a["w"], sym)
        return None

    def do_vectors(self, a, o):
        v = np.array(o["v"]).T / np.sqrt(o["c"][0][0][1])
        ph = np.exp(1j * np.array([0.3, -1.2, 2.0, 0.9]))
        p = np.diag(ph) @ v
        # symmetric, unitary and symmetric, Hermitian, and unitary matrices with these eigenvectors up to phases
        mats = [v @ np.diag([1.0, 2.5, -0.7, 4.0]) @ v.T, v @ np.diag(ph) @ v.T, p @ np.diag([1.0, 2.5, -0.7, 4.0]) @ p.conj().T, p @ np.diag(ph) @ p.conj().T]
        comps = [[frac(x) for x in c] for c in o["c"]]
        pairs = [[frac(x) for x in p] for p in o["p"]]
        flat, two = sorted(sum(comps, [])), sorted(sum(pairs, []))
        for x in [f(m) for m in mats for f in (np.array, sp.csc_matrix)]:
            for symp, want in ((False, flat), (True, two)):
                got = self.ev._eigStat(x, symp)
                if len(got) != len(want) or not np.allclose(sorted(got), want, atol=1e-8):
                    return "components of the eigenvectors of %s (pairs: %s): %s" % (dense(x), symp, got)
        # the columns of a matrix of eigenvectors; in rows of components, pairs column by column
        got = self.ev._eigStatEig(v)
        if not np.allclose(np.array(got).reshape(4, 4), np.array(comps).T, atol=1e-9):
            return "components of the vectors %s: %s" % (v, got)
        got = self.ev._eigStatEig(v, symp=True)
        if len(got) != 8 or not np.allclose(np.array(got).reshape(4, 2), pairs, atol=1e-9):
            return "pairs of components of the vectors %s: %s" % (v, got)
        return None
