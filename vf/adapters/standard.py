import numpy as np
import scipy.linalg
import scipy.special
import scipy.sparse as sp
from .common import fresh, dense, close, Pure


def matrix(els, rows, cols, power=1):
    m = np.zeros((rows, cols), dtype=complex)
    for e in els:
        m[e["r"], e["c"]] = (1, 1j, -1, -1j)[e["k"]] * np.sqrt(e["n"]) / 4 ** power
    return m


def vector(amps):
    return np.array([[a["s"] * np.sqrt(a["n"] / a["d"])] for a in amps])


PAR = []


def parity(ket, n=70):
    """the Wigner function as the expectation value of the displaced parity"""
    if not PAR:
        vec, a = [-1.0, 0.5, 2.0], np.diag(np.sqrt(np.arange(1, n)), 1)
        for y in vec:
            row = []
            for x in vec:
                al = 0.5 * np.sqrt(2) * (x + 1j * y)
                u = scipy.linalg.expm(al * a.T - np.conj(al) * a)
                row.append((u @ np.diag((-1.0) ** np.arange(n)) @ u.conj().T)[:4, :4])
            PAR.append(row)
    d = len(ket)
    return np.array([[2 / np.pi * (ket.conj().T @ m[:d, :d] @ ket)[0, 0].real for m in row] for row in PAR])


class Standard:
    """Standard.tla <-> operators, states and functions of QuantumToolbox"""

    def reset(self, init):
        self.qg = fresh()
        self.touched = []
        self.tb = Pure(self.qg.QuantumToolbox, self.touched)

    def step(self, a):
        return "ok"

    def check(self, a, out, o):
        if a["n"] == "init":
            return None
        r = getattr(self, "do_" + a["n"])(a, o)
        if r is None and self.touched:
            r = "%s changed its arguments" % ", ".join(sorted(set(self.touched)))
        del self.touched[:]
        return r

    def same(self, what, got, want, sparse=None):
        if sparse is not None and sp.issparse(got) != sparse:
            return "%s: sparse is %s" % (what, sp.issparse(got))
        if not close(got, want, 1e-9):
            return "%s gives\n%s instead of\n%s" % (what, dense(got), want)
        return None

    def all(self, calls):
        for c in calls:
            r = self.same(*c)
            if r:
                return r
        return None

    def do_op(self, a, o):
        tb, op, d = self.tb, a["op"], a["d"]
        want = matrix(o, d, d)
        calls = []
        for s in (True, False):
            if op in ("Jp", "Jm", "Jx", "Jy", "Jz", "Js"):
                f = getattr(tb.operators, op)
                calls += [(op + " of dimension %d" % d, f(d, sparse=s, isDim=True), want, s), (op + " of spin %s/2" % (d - 1), f((d - 1) / 2, sparse=s), want, s)]
                if d % 2:
                    calls.append((op + " of spin %d" % ((d - 1) // 2), f((d - 1) // 2, sparse=s), want, s))
            elif op == "zeros":
                calls += [("zerosMat", tb.states.zerosMat(d, sparse=s), want, s), ("zerosKet", tb.states.zerosKet(d, sparse=s), want[:, :1], s)]
            else:
                f = getattr(tb.operators, {"parity": "paritySUM"}.get(op, op))
                calls += [(op, f(d, sparse=s), want, s), (op, f(np.int64(d), s), want, s)]
        if op == "parity":
            calls += [("parityEXP", tb.operators.parityEXP(tb.operators.number(d, sparse=s)), want) for s in (True, False)]
        if op == "identity":
            for s in (True, False):
                for i in range(d):
                    calls += [("basis", tb.states.basis(d, i, sparse=s), want[:, i:i + 1], s), ("basisBra", tb.states.basisBra(d, i, sparse=s), want[i:i + 1, :], s)]
                calls += [("completeBasis", v, want[:, i:i + 1], s) for i, v in enumerate(tb.states.completeBasis(d, sparse=s))]
                calls += [("completeBasisMat", v, np.diag(want[i]), s) for i, v in enumerate(tb.states.completeBasisMat(d, sparse=s))]
                given = tb.states.completeBasis(d, sparse=s)
                calls += [("completeBasisMat of kets", v, np.diag(want[i]), s) for i, v in enumerate(tb.states.completeBasisMat(compKetBase=given))]
        return self.all(calls)

    def do_fixed(self, a, o):
        tb, op, calls = self.tb, a["op"], []
        for s in (True, False):
            if op.startswith("bell"):
                w = matrix(o, 4, 1)
                for n in (op[4:], {"00": "Phi+", "01": "Phi-", "10": "Psi+", "11": "Psi-"}[op[4:]]):
                    calls.append(("BellStates " + n, tb.states.BellStates(n, sparse=s), w, s))
            else:
                n = 4 if op == "CNOT" else 2
                f = getattr(tb.basicGates if op in ("CNOT", "Hadamard") else tb.operators, op)
                calls.append((op, f(sparse=s), matrix(o, n, n), s))
        return self.all(calls)

    def do_cphase(self, a, o):
        return self.all([("CPHASE", self.tb.basicGates.CPHASE(a["d"] * np.pi / 2, sparse=s), matrix(o, 4, 4), s) for s in (True, False)])

    def do_power(self, a, o):
        tb, op, d = self.tb, a["op"], a["d"]
        f = getattr(tb.operators, {"parity": "paritySUM"}.get(op, op))
        want = matrix(o, d, d, a["p"])
        calls = []
        for s in (True, False):
            if op in ("Jp", "Jm", "Jz"):
                calls.append((op + " power", tb.linearAlgebra._matPower(f(d, sparse=s, isDim=True), a["p"]), want, s))
                calls.append((op + " power", tb.operators.operatorPow(f, (d - 1) / 2, a["p"], s), want, s))
            else:
                calls.append((op + " power", tb.operators.operatorPow(f, d, a["p"], s), want, s))
        return self.all(calls)

    def do_superpos(self, a, o):
        st, d, w, want = self.tb.states, a["d"], a["w"], vector(o)
        calls = []
        for s in (True, False):
            ways = [{i: x for i, x in enumerate(w) if x}, {i: w[i] for i in reversed(range(d))}]
            for e in ways:
                calls.append(("superPos %s %s" % (e, a["h"]), st.superPos(d, e, populations=a["h"] == "pop", sparse=s), want, s))
            if a["h"] == "pop":
                calls.append(("superPos of a part", st.superPos(d, {k: x / (2 * sum(w)) for k, x in ways[0].items()}, sparse=s), want, s))
                calls.append(("normalise", st.normalise(np.sqrt(np.array([[x] for x in w]))), want, False))
                if set(w) <= {0, 1}:
                    on = [i for i in range(d) if w[i]]
                    calls.append(("superPos of a list", st.superPos(d, on, sparse=s), want, s))
                    calls.append(("superPos of a tuple", st.superPos(d, tuple(reversed(on)), sparse=s), want, s))
                    if len(on) == 1:
                        calls.append(("superPos of a number", st.superPos(d, on[0], sparse=s), want, s))
                        calls.append(("superPos of a number", st.superPos(d, np.int64(on[0]), sparse=s), want, s))
            else:
                calls.append(("normalise", st.normalise(np.array([[x] for x in w])), want, False))
                # complex amplitudes
                ph = np.exp(1j * np.arange(1, d + 1))
                calls.append(("superPos of complex amplitudes", st.superPos(d, {i: complex(x * ph[i]) for i, x in enumerate(w) if x}, populations=False, sparse=s), ph[:, None] * want, s))
                calls.append(("normalise", st.normalise(np.array([[x * ph[i]] for i, x in enumerate(w)])), ph[:, None] * want, False))
        r = self.all(calls)
        if r:
            return r
        num, den = [x["n"] for x in o], o[0]["d"]
        mean, sq = sum(i * x for i, x in enumerate(num)) / den, sum(i * i * x for i, x in enumerate(num)) / den
        for k in (want, sp.csc_matrix(want), want @ want.T, sp.csc_matrix(want @ want.T)):
            op = self.tb.operators.number(d, sparse=sp.issparse(k))
            if abs(self.tb.functions.expectation(op, k) - mean) > 1e-9:
                return "mean of the number operator in %s: %r" % (num, self.tb.functions.expectation(op, k))
            if sq - mean ** 2 > 1e-6:
                got = self.tb.functions.standardDev(op, k)
                both = self.tb.functions.standardDev(op, k, True)
                if not (abs(got - np.sqrt(sq - mean ** 2)) <= 1e-6 and abs(both[0] - got) + abs(both[1] - mean) <= 1e-6):
                    return "standard deviation of the number operator in %s: %r, %r" % (num, got, both)
        # the same in another basis, with complex numbers
        u, ph = self.unitary(d), np.exp(1j * np.arange(1, d + 1))[:, None] * want
        no = u @ np.diag(np.arange(d)) @ u.conj().T
        for mk in (np.array, sp.csc_matrix):
            for k in (u @ ph, u @ ph @ ph.conj().T @ u.conj().T):
                got = self.tb.functions.expectation(mk(no), mk(k))
                if abs(got - mean) > 1e-8:
                    return "mean of the number operator in another basis in %s: %r" % (num, got)
                if sq - mean ** 2 > 1e-6:
                    got = self.tb.functions.standardDev(mk(no), mk(k))
                    if not abs(got - np.sqrt(sq - mean ** 2)) <= 1e-6:
                        return "standard deviation of the number operator in another basis in %s: %r" % (num, got)
            got = self.tb.IPR.iprKet([mk(u[:, [i]]) for i in range(d)], mk(u @ ph))
            ipr = den ** 2 / sum(n * n for n in num)
            if not abs(got - ipr) <= 1e-9 * ipr:
                return "inverse participation ratio of %s in another basis is %r instead of %r" % (num, got, ipr)
            for got in (self.tb.functions.entropy(mk(ph)), self.tb.functions.entropy(mk(u @ ph @ ph.conj().T @ u.conj().T))):
                if not abs(got) <= 1e-8:
                    return "entropy of the pure state %s: %r" % (num, got)
        ipr = den ** 2 / sum(n * n for n in num)
        for got in (self.tb.IPR.iprKetNB(want), self.tb.IPR.iprKetNB(sp.csc_matrix(want)), self.tb.IPR.iprKet(st.completeBasis(d), sp.csc_matrix(want)),
                    self.tb.IPR.iprKet(st.completeBasis(d, sparse=False), want)):
            if not abs(got - ipr) <= 1e-9 * ipr:
                return "inverse participation ratio of %s is %r instead of %r" % (num, got, ipr)
        return None

    def do_composite(self, a, o):
        st, want, calls = self.tb.states, vector(o), []
        for s in (True, False):
            ex = [{i: x for i, x in enumerate(w) if x} for w in a["w"]]
            calls.append(("compositeState %s %s" % (a["dims"], ex), st.compositeState(list(a["dims"]), ex, sparse=s), want, None if len(ex) == 1 else s))
            if all(len(e) == 1 for e in ex):
                calls.append(("compositeState of numbers", st.compositeState(a["dims"], [list(e)[0] for e in ex], sparse=s), want))
            if all(set(e.values()) == {1} for e in ex):
                calls.append(("compositeState of lists", st.compositeState(a["dims"], [list(e) for e in ex], sparse=s), want))
        return self.all(calls)

    def do_mixed(self, a, o):
        tb, p, d = self.tb, np.array(a["p"]), a["d"]
        rho = np.diag(p / o["s"])
        r = self.all([("densityMatrix of %s" % a["p"], tb.states.densityMatrix([tb.states.basis(d, i, sparse=s) for i in range(d)], list(w)), rho)
                      for s in (True, False) for w in (p, p / o["s"])])
        if r:
            return r
        q = [x / o["s"] for x in a["p"] if x]
        ent = -sum(x * np.log(x) for x in q)
        for m in (rho, sp.csc_matrix(rho), self.turn(rho)):
            for b in (False, True):
                got = tb.functions.entropy(m, b)
                if not abs(got - ent / (np.log(2) if b else 1)) <= 1e-8:
                    return "entropy of %s is %r" % (a["p"], got)
            got = tb.states.purity(m)
            if not abs(got - o["s2"] / o["s"] ** 2) <= 1e-9:
                return "purity of %s is %r" % (a["p"], got)
        r = self.husimi(a["p"])
        return r

    @staticmethod
    def unitary(d):
        h = np.arange(d * d).reshape(d, d)
        return scipy.linalg.expm(0.3j * (h + h.T) + 0.2 * (h - h.T))

    def turn(self, m):
        """the same matrix in another basis"""
        u = self.unitary(m.shape[0])
        return u @ m @ u.conj().T

    def husimi(self, p):
        q, d = np.array(p) / sum(p), len(p)
        vec = [-1.0, 0.5, 2.0]
        X, Y = np.meshgrid(vec, vec)
        al = 0.5 * np.sqrt(2) * (X + 1j * Y)
        f = [np.abs(al) ** (2 * n) * np.exp(-np.abs(al) ** 2) / scipy.special.factorial(n) for n in range(d)]
        mixed = sum(x * y for x, y in zip(q, f)) / np.pi * 0.5
        ket = np.sqrt(q).reshape(-1, 1)
        pure = np.abs(sum(np.sqrt(x) * np.conj(al) ** n / np.sqrt(scipy.special.factorial(n)) for n, x in enumerate(q))) ** 2 * np.exp(-np.abs(al) ** 2) / np.pi * 0.5
        Q, W = self.tb.quasiProbabilities.HusimiQ, self.tb.quasiProbabilities.Wigner
        r = None
        for s in (np.array, sp.csc_matrix):
            r = r or self.all([("HusimiQ of a density matrix", Q(s(np.diag(q)), vec), mixed), ("HusimiQ of a ket", Q(s(ket), vec), pure),
                               ("HusimiQ of the density matrix of a ket", Q(s(ket @ ket.T), vec), pure)])
            lag = [(-1) ** n * 2 * scipy.special.eval_laguerre(n, 4 * np.abs(al) ** 2) * np.exp(-2 * np.abs(al) ** 2) / np.pi / 2 for n in range(d)]
            ph = ket * np.array([[1], [1j], [-1 + 0j], [0.6 + 0.8j]])[:d]
            w = parity(ph)
            r = r or self.all([("Wigner of a complex ket", W(s(ph), vec), w), ("Wigner of a complex density matrix", W(s(ph @ ph.conj().T), vec), w),
                               ("HusimiQ of a complex ket", Q(s(ph), vec), self.coherent(ph, al)),
                               ("HusimiQ of a complex density matrix", Q(s(ph @ ph.conj().T), vec), self.coherent(ph, al))])
            r = r or self.all([("Wigner of a density matrix", W(s(np.diag(q)), vec), sum(x * y for x, y in zip(q, lag)) * 2),
                               ("Wigner of a ket", W(s(ket), vec), W(ket @ ket.T, vec))])
        return r

    @staticmethod
    def coherent(ket, al):
        """|<alpha|psi>|^2 / pi / 2"""
        n = range(len(ket))
        return np.abs(sum(ket[i, 0] * np.conj(al) ** i / np.sqrt(scipy.special.factorial(i)) for i in n)) ** 2 * np.exp(-np.abs(al) ** 2) / np.pi * 0.5

    def do_two(self, a, o):
        fn = self.tb.functions
        p, q = (np.diag(np.array(x) / sum(x)) for x in (a["p"], a["q"]))
        dist, over = o["dist"][0] / o["dist"][1], o["over"][0] / o["over"][1]
        for x, y in ((p, q), (sp.csc_matrix(p), sp.csc_matrix(q)), (self.turn(p), self.turn(q))):
            got = fn.traceDistance(x, y)
            if not abs(got - dist) <= 1e-7:
                return "trace distance of %s and %s is %r instead of %r" % (a["p"], a["q"], got, dist)
            got, want = fn._fidelityTest(x, y), np.sum(np.sqrt(np.array(a["p"]) * np.array(a["q"]))) ** 2 / sum(a["p"]) / sum(a["q"])
            # square roots of singular matrices are not accurate
            if not abs(got - want) <= (1e-4 if all(a["p"]) and all(a["q"]) else 5e-3):
                return "fidelity of the mixtures %s and %s is %r instead of %r" % (a["p"], a["q"], got, want)
            got = fn.fidelityPure(x, y)
            if not abs(got - over) <= 1e-9:
                return "fidelityPure of %s and %s is %r instead of %r" % (a["p"], a["q"], got, over)
        return None

    def do_qubits(self, a, o):
        ket = np.array([[x] for x in a["a"]]) / np.sqrt(o["conc"][1])
        want = o["conc"][0] / o["conc"][1]
        # local unitaries do not change the entanglement
        u = [scipy.linalg.expm(1j * np.array([[x, y - 1j * z], [y + 1j * z, -x]])) for x, y, z in ((0.4, -0.8, 1.1), (1.3, 0.2, -0.5))]
        tur = np.kron(*u) @ ket
        for m in (ket, sp.csc_matrix(ket), ket @ ket.T, sp.csc_matrix(ket @ ket.T), tur, sp.csc_matrix(tur), tur @ tur.conj().T):
            got = self.tb.functions.concurrence(m)
            if not abs(got - want) <= 1e-6:
                return "concurrence of %s is %r instead of %r" % (a["a"], got, want)
        return None

    def do_bells(self, a, o):
        st, want = self.tb.states, o["conc"][0] / o["conc"][1]
        kets = [dense(st.BellStates(b)) for b in ("Phi+", "Phi-", "Psi+", "Psi-")]
        rho = sum(p / o["s"] * k @ k.T for p, k in zip(a["p"], kets))
        u = [scipy.linalg.expm(1j * np.array([[x, y - 1j * z], [y + 1j * z, -x]])) for x, y, z in ((0.4, -0.8, 1.1), (1.3, 0.2, -0.5))]
        u = np.kron(*u)
        for m in (rho, sp.csc_matrix(rho), u @ rho @ u.conj().T, sp.csc_matrix(u @ rho @ u.conj().T)):
            got = self.tb.functions.concurrence(m)
            if not abs(got - want) <= 1e-6:
                return "concurrence of the mixture %s of Bell states is %r instead of %r" % (a["p"], got, want)
        return None

    def do_rot(self, a, o):
        sr, d, t = self.tb.spinRotations, a["d"], a["t"] * np.pi / 4 - np.pi
        u = scipy.linalg.expm(-1j * t * matrix(o, d, d))
        calls = []
        for s in (True, False):
            for x in (a["x"], a["x"].upper()):
                calls += [("spinRotation", sr.spinRotation(x, t, d, sparse=s, isDim=True), u, s), ("spinRotation", sr.spinRotation(x, t, (d - 1) / 2, sparse=s), u, s)]
                if d == 2:
                    calls += [("qubRotation", sr.qubRotation(x, t, sparse=s), u, s), (x + "Rotation", getattr(sr, a["x"] + "Rotation")(t, sparse=s), u, s)]
        return self.all(calls)

    def do_eig(self, a, o):
        fn = self.tb.functions
        for pos in range(2):
            m = np.diag([2.0 * a["e"]] * 3)
            m[pos:pos + 2, pos:pos + 2] = [[a["a"], a["b"]], [a["b"], a["a"]]]
            ph = np.diag(np.exp(1j * np.array([0.4, -1.1, 2.3])))
            for x in (m, sp.csc_matrix(m), ph @ m @ ph.conj().T, sp.csc_matrix(ph @ m @ ph.conj().T)):
                m = dense(x)
                for mag in (False, True):
                    vals, vecs = fn.sortedEigens(x, mag)
                    want = sorted(o["vals"], key=(lambda z: (abs(z))) if mag else None)
                    if not np.allclose(np.abs(vals) if mag else vals, np.abs(want) if mag else want, atol=1e-9):
                        return "sorted eigenvalues %s instead of %s" % (vals, want)
                    for v, e in zip(vecs, vals):
                        if not np.allclose(m @ dense(v), e * dense(v), atol=1e-9) or abs(np.linalg.norm(dense(v)) - 1) > 1e-9:
                            return "sortedEigens: the vectors do not belong to the values"
                n = fn.spectralNorm(x)[0]
                if abs(n - max(abs(z) for z in o["vals"])) > 1e-6:
                    return "spectral norm %r of a matrix with eigenvalues %s" % (n, o["vals"])
        return None

    def do_coupling(self, a, o):
        f, d = getattr(self.tb.Hamiltonians, a["op"] + "Ham"), a["d"]
        c = matrix(o, 2 * d, 2 * d)
        num = np.kron(np.eye(2), np.diag(np.arange(d)))
        qub, z = dense(f(1.3, 0, 0, d)), np.kron(np.diag([1, -1]), np.eye(d))
        return self.all([(a["op"] + " coupling", f(0, 0, 0.7, d), 0.7 * c), (a["op"] + " cavity", f(0, 0.9, 0, d), 0.9 * num),
                         (a["op"] + " qubit", qub / qub[0, 0], z), (a["op"], f(1.3, 0.9, -0.7, d), qub + 0.9 * num - 0.7 * c)])

    def do_ujc(self, a, o):
        d, wc, t = a["d"], 0.9, (0, 0.4, 1.3, 4.1)[a["t"]]
        wq, g = {1: (0.9, 0.35), 2: (1.7, 0.35), 3: (0.4, -1.2)}[a["w"]]
        h = wq / 2 * np.kron(np.diag([1, -1]), np.eye(d)) + wc * np.kron(np.eye(2), np.diag(np.arange(d))) + g * matrix(o, 2 * d, 2 * d)
        u = scipy.linalg.expm(-1j * t * h)
        # the basis of the closed form: the photons first, and the lower state of the qubit first
        at = [q * d + n for n in range(d) for q in (1, 0)]
        want, f = u[np.ix_(at, at)], self.tb.Hamiltonians.UJC
        return self.all([("UJC", f(wq, wc, g, t, d, s), want, s) for s in (True, False)] + [("UJC", f(wq, wc, g, t, d), want, False)])

    def do_steady(self, a, o):
        ev, d = self.tb.evolution, a["d"]
        want = np.diag(np.array(o) / sum(o))
        for s in (True, False):
            ops = [self.tb.operators.create(d, s), self.tb.operators.destroy(d, s)]
            for h in (0.8 * self.tb.operators.number(d, s), None):
                for dbl in (False, True):
                    vals, vecs = ev.steadyState(h, [0.5 * x for x in ops] if dbl else ops, [a["u"], a["v"]], dbl)
                    if not (abs(vals[-1] - 1) <= 1e-8 and len(vals) == len(vecs) == d * d and np.all(np.abs(vals) <= 1 + 1e-8)):
                        return "eigenvalues %s of the map of an open system" % vals
                    rho = self.tb.states.vec2Mat(vecs[-1])
                    r = self.same("the steady state", dense(rho) / np.trace(dense(rho)), want)
                    if r:
                        return r
        return None

    def generated(self, name, a, m):
        al = (0.3, 0.5j, -0.4 + 0.2j, 0.7 - 1j)[a["a"]]
        u = scipy.linalg.expm(al * m - np.conj(al) * m.conj().T)
        return al, u

    def do_displace(self, a, o):
        al, u = self.generated("displacement", a, matrix(o, a["d"], a["d"]))
        return self.all([("displacement", self.tb.operators.displacement(al, a["d"], s), u, s) for s in (True, False)])

    def do_squeeze(self, a, o):
        al, u = self.generated("squeeze", a, matrix(o, a["d"], a["d"], 2) * -0.5)
        return self.all([("squeeze", self.tb.operators.squeeze(al, a["d"], s), u, s) for s in (True, False)])

    def do_thermal(self, a, o):
        th, f = self.tb.thermodynamics, a["t"] * np.log(a["q"])
        want = o["nbar"][0] / o["nbar"][1]
        for got in (th.nBarThermal(f, a["t"]), th.nBarThermal(f / 2, a["t"], hbar=2), th.nBarThermal(f, a["t"] / 4, kb=4)):
            if not abs(got - want) <= 1e-9:
                return "thermal occupation %r instead of %r" % (got, want)
        if th.nBarThermal(f, 0) != 0:
            return "thermal occupation at zero temperature"
        got, want = th.qubitPolarisation(f, a["t"]), o["pol"][0] / o["pol"][1]
        if not abs(got - want) <= 1e-9:
            return "polarisation %r instead of %r" % (got, want)
        return None

    def do_evolve(self, a, o):
        ev, ops = self.tb.evolution, self.tb.operators
        dt, w, g = a["t"] / 10, 1.1, 0.6
        ket = np.array([[0.6], [0.8j]])
        for s in (True, False):
            h, c = w / 2 * ops.sigmaz(sparse=s), (ops.sigmam(sparse=s) if a["c"] == "decay" else ops.sigmaz(sparse=s))
            for start in (ket, ket @ ket.conj().T):
                start = sp.csc_matrix(start) if s else start
                for delete in (False, True):
                    seen = []
                    res = ev.evolveOpen(start, a["q"] * dt, dt, h, [c], [g], calcFunc=lambda x: seen.append(dense(x)), delStates=delete)
                    if len(seen) != o["states"] or (not delete and len(res) != o["states"]):
                        return "%d steps of %s: %d states, the function is called %d times" % (a["q"], dt, len(res), len(seen))
                    for i, x in enumerate(seen):
                        t = i * dt
                        p = 0.36 * (np.exp(-g * t) if a["c"] == "decay" else 1)
                        q = 0.6 * -0.8j * np.exp(-1j * w * t - (g / 2 if a["c"] == "decay" else 2 * g) * t)
                        want = np.array([[p, q], [np.conj(q), 1 - p]])
                        if not close(x, want, 1e-8) or (not delete and not close(res[i], want, 1e-8)):
                            return "state %d of %d steps of %s is\n%s instead of\n%s" % (i, a["q"], dt, x, want)
        return None
