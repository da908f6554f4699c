------------------------------ MODULE Standard ------------------------------
(* The standard operators, states and observables of the toolbox, for every   *)
(* dimension up to a bound.  A matrix element is [r, c, n, k]: row, column,   *)
(* and the value i^k * sqrt(n) / 4 (all elements not listed are zero), so     *)
(* the defining algebra (commutators, Casimir, normalisation) is checked      *)
(* exactly.  Amplitudes of states are sqrt(num/den).  Every call of the       *)
(* toolbox is one transition from the initial state.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDim, MaxPow, MaxW, MaxT, MaxN, Dims

VARIABLES out, act
vars == <<out, act>>
V == <<act>>

--------------------------------------------------------------------------
(* operators by their elements *)
I0(d) == 0..(d - 1)
Diag(d, f(_)) == {[r |-> i, c |-> i, n |-> f(i)[1], k |-> f(i)[2]] : i \in I0(d)}
Up(d, f(_), k) == {[r |-> i, c |-> i + 1, n |-> f(i), k |-> k] : i \in 0..(d - 2)}
Down(d, f(_), k) == {[r |-> i + 1, c |-> i, n |-> f(i), k |-> k] : i \in 0..(d - 2)}
J2(d, i) == (d - 1 - i) * (i + 1)                 \* |<m|J+|m-1>|^2, m = j - i, 2j + 1 = d
M2(d, i) == d - 1 - 2 * i                         \* 2m
Sq(x) == x * x
Elements(op, d) ==
    CASE op = "number" -> Diag(d, LAMBDA i : <<16 * i * i, 0>>)
      [] op = "identity" -> Diag(d, LAMBDA i : <<16, 0>>)
      [] op = "destroy" -> Up(d, LAMBDA i : 16 * (i + 1), 0)
      [] op = "create" -> Down(d, LAMBDA i : 16 * (i + 1), 0)
      [] op = "Jp" -> Up(d, LAMBDA i : 16 * J2(d, i), 0)
      [] op = "Jm" -> Down(d, LAMBDA i : 16 * J2(d, i), 0)
      [] op = "Jx" -> Up(d, LAMBDA i : 4 * J2(d, i), 0) \cup Down(d, LAMBDA i : 4 * J2(d, i), 0)
      [] op = "Jy" -> Up(d, LAMBDA i : 4 * J2(d, i), 3) \cup Down(d, LAMBDA i : 4 * J2(d, i), 1)
      [] op = "Jz" -> Diag(d, LAMBDA i : <<4 * Sq(M2(d, i)), IF M2(d, i) < 0 THEN 2 ELSE 0>>)
      [] op = "Js" -> Diag(d, LAMBDA i : <<Sq(d * d - 1), 0>>)
      [] op = "parity" -> Diag(d, LAMBDA i : <<16, IF i % 2 = 0 THEN 0 ELSE 2>>)
      [] op = "sigmax" -> Up(2, LAMBDA i : 16, 0) \cup Down(2, LAMBDA i : 16, 0)
      [] op = "sigmay" -> Up(2, LAMBDA i : 16, 3) \cup Down(2, LAMBDA i : 16, 1)
      [] op = "sigmaz" -> Diag(2, LAMBDA i : <<16, 2 * i>>)
      [] op = "sigmap" -> Up(2, LAMBDA i : 16, 0)
      [] op = "sigmam" -> Down(2, LAMBDA i : 16, 0)
      [] op = "CNOT" -> {[r |-> i, c |-> IF i < 2 THEN i ELSE 5 - i, n |-> 16, k |-> 0] : i \in 0..3}
      [] op = "Hadamard" -> {[r |-> i, c |-> j, n |-> 8, k |-> IF i = 1 /\ j = 1 THEN 2 ELSE 0] : i \in 0..1, j \in 0..1}
      [] op = "CPHASE" -> {[r |-> i, c |-> i, n |-> 16, k |-> IF i = 3 THEN d ELSE 0] : i \in 0..3}       \* phase d*pi/2
      [] op = "zeros" -> {}
      [] op = "bell00" -> {[r |-> 0, c |-> 0, n |-> 8, k |-> 0], [r |-> 3, c |-> 0, n |-> 8, k |-> 0]}
      [] op = "bell01" -> {[r |-> 0, c |-> 0, n |-> 8, k |-> 0], [r |-> 3, c |-> 0, n |-> 8, k |-> 2]}
      [] op = "bell10" -> {[r |-> 1, c |-> 0, n |-> 8, k |-> 0], [r |-> 2, c |-> 0, n |-> 8, k |-> 0]}
      [] op = "bell11" -> {[r |-> 1, c |-> 0, n |-> 8, k |-> 0], [r |-> 2, c |-> 0, n |-> 8, k |-> 2]}
(* the coupling of a qubit (left factor) and a cavity; row = qubit * d + photons, qubit state 0 is the upper one *)
Raise(d) == {[r |-> i + 1, c |-> d + i, n |-> 16 * (i + 1), k |-> 0] : i \in 0..(d - 2)}      \* sigma_+ a^+
Lower(d) == {[r |-> d + i, c |-> i + 1, n |-> 16 * (i + 1), k |-> 0] : i \in 0..(d - 2)}      \* sigma_- a
Absorb(d) == {[r |-> i, c |-> d + i + 1, n |-> 16 * (i + 1), k |-> 0] : i \in 0..(d - 2)}     \* sigma_+ a
Emits(d) == {[r |-> d + i + 1, c |-> i, n |-> 16 * (i + 1), k |-> 0] : i \in 0..(d - 2)}      \* sigma_- a^+
Coupling(op, d) == CASE op = "JC" -> Absorb(d) \cup Emits(d)
                     [] op = "aJC" -> Raise(d) \cup Lower(d)
                     [] op = "Rabi" -> Absorb(d) \cup Emits(d) \cup Raise(d) \cup Lower(d)
Spins == {"Jp", "Jm", "Jx", "Jy", "Jz", "Js"}
ByDim == {"number", "identity", "destroy", "create", "parity", "zeros"} \cup Spins
Fixed == {"sigmax", "sigmay", "sigmaz", "sigmap", "sigmam", "CNOT", "Hadamard", "bell00", "bell01", "bell10", "bell11"}
(* powers of operators with at most one element in each row stay of this form *)
Shift == {"number", "destroy", "create", "Jp", "Jm", "Jz", "sigmap", "sigmam", "sigmaz", "parity"}
Isq(n) == CHOOSE x \in 0..n : x * x = n
RECURSIVE Power(_, _)
(* the elements of the p-th power are i^k * sqrt(n) / 4^p *)
Power(E, p) == IF p = 1 THEN E ELSE
    LET F == Power(E, p - 1) IN
    {[r |-> e.r, c |-> f.c, n |-> e.n * f.n, k |-> (e.k + f.k) % 4] : <<e, f>> \in {x \in E \X F : x[1].c = x[2].r}}

--------------------------------------------------------------------------
(* states: a basis number, several of them with equal weight, or numbers with weights *)
RECURSIVE SumD(_, _)
SumD(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumD(S \ {x}, f)
SumS(S, f(_)) == SumD(S, [x \in S |-> f(x)])
(* w is the weight of every basis state; h: the weights are "pop" populations, "amp" amplitudes *)
Amps(d, w, h) == [i \in 1..d |-> [n |-> IF h = "pop" THEN w[i] ELSE Sq(w[i]), d |-> SumS(1..d, LAMBDA j : IF h = "pop" THEN w[j] ELSE Sq(w[j])),
                                   s |-> IF w[i] < 0 THEN 0 - 1 ELSE 1]]
Weights(d, h) == {w \in [1..d -> (IF h = "pop" THEN 0..MaxW ELSE (0 - MaxW)..MaxW)] : \E i \in 1..d : w[i] # 0}
KronA(x, y) == [i \in 1..(Len(x) * Len(y)) |-> LET a == x[((i - 1) \div Len(y)) + 1] b == y[((i - 1) % Len(y)) + 1]
                                               IN [n |-> a.n * b.n, d |-> a.d * b.d, s |-> a.s * b.s]]
RECURSIVE KronAll(_)
KronAll(q) == IF Len(q) = 1 THEN q[1] ELSE KronA(q[1], KronAll(Tail(q)))

(* observables of diagonal density matrices with populations p, q and of pure states with integer amplitudes *)
Sum(p) == SumS(DOMAIN p, LAMBDA i : p[i])
Dot(p, q) == SumS(DOMAIN p, LAMBDA i : p[i] * q[i])
AbsV(x) == IF x < 0 THEN 0 - x ELSE x
TwoQ(a) == [conc |-> <<2 * AbsV(a[1] * a[4] - a[2] * a[3]), Dot(a, a)>>]

RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN 1 ELSE x * PowN(x, n - 1)
Ladder0(d, u, v) == [i \in 1..d |-> PowN(u, i - 1) * PowN(v, d - i)]

--------------------------------------------------------------------------
Call(a, o) == act.n = "init" /\ act' = a /\ out' = o
Next ==
    \/ \E op \in ByDim : \E d \in 2..MaxDim : Call([n |-> "op", op |-> op, d |-> d], Elements(op, d))
    \/ \E op \in Fixed : Call([n |-> "fixed", op |-> op, d |-> 2], Elements(op, 2))
    \/ \E d \in 0..3 : Call([n |-> "cphase", op |-> "CPHASE", d |-> d], Elements("CPHASE", d))
    \/ \E op \in Shift : \E d \in 2..5 : \E p \in 1..MaxPow :
          /\ op \in {"sigmap", "sigmam", "sigmaz"} => d = 2
          /\ op = "parity" => p < 3
          /\ Call([n |-> "power", op |-> op, d |-> d, p |-> p], Power(Elements(op, d), p))
    \/ \E d \in Dims : \E h \in {"pop", "amp"} : \E w \in Weights(d, h) : Call([n |-> "superpos", d |-> d, h |-> h, w |-> w], Amps(d, w, h))
    \/ \E n \in 1..MaxT : \E ds \in [1..n -> Dims] : \E at \in [1..n -> 0..2] : (\A i \in 1..n : at[i] < ds[i])
          /\ Call([n |-> "composite", dims |-> ds, w |-> [i \in 1..n |-> [x \in 1..ds[i] |-> IF x = at[i] + 1 THEN 1 ELSE 0]]],
                  KronAll([i \in 1..n |-> Amps(ds[i], [x \in 1..ds[i] |-> IF x = at[i] + 1 THEN 1 ELSE 0], "pop")]))
    \/ \E d1 \in Dims : \E d2 \in Dims : \E w1 \in Weights(d1, "pop") : \E w2 \in Weights(d2, "pop") : d1 + d2 <= 5
          /\ Call([n |-> "composite", dims |-> <<d1, d2>>, w |-> <<w1, w2>>], KronA(Amps(d1, w1, "pop"), Amps(d2, w2, "pop")))
    \/ \E d \in Dims : \E p \in Weights(d, "pop") : Call([n |-> "mixed", d |-> d, p |-> p], [p |-> p, s |-> Sum(p), s2 |-> Dot(p, p)])
    \/ \E d \in {2, 3} : \E p \in Weights(d, "pop") : \E q \in Weights(d, "pop") :
          Call([n |-> "two", p |-> p, q |-> q],
               [dist |-> <<SumS(1..d, LAMBDA i : AbsV(p[i] * Sum(q) - q[i] * Sum(p))), 2 * Sum(p) * Sum(q)>>, over |-> <<Dot(p, q), Sum(p) * Sum(q)>>])
    \/ \E a \in Weights(4, "amp") : Call([n |-> "qubits", a |-> a], TwoQ(a))
    \/ \E p \in Weights(4, "pop") : LET best == CHOOSE i \in 1..4 : \A j \in 1..4 : p[j] <= p[i] IN
          Call([n |-> "bells", p |-> p], [s |-> Sum(p), conc |-> <<IF 2 * p[best] > Sum(p) THEN 2 * p[best] - Sum(p) ELSE 0, Sum(p)>>])
    \/ \E x \in {"x", "y", "z"} : \E t \in 0..16 : \E d \in 2..4 : Call([n |-> "rot", x |-> x, t |-> t, d |-> d], Elements("J" \o x, d))
    \/ \E op \in {"JC", "aJC", "Rabi"} : \E d \in 2..6 : Call([n |-> "coupling", op |-> op, d |-> d], Coupling(op, d))
    (* displacement and squeezing: the generator is made of these elements *)
    \/ \E d \in 2..6 : \E a \in 0..3 : Call([n |-> "displace", d |-> d, a |-> a], Elements("create", d))
    \/ \E d \in 3..6 : \E a \in 0..3 : Call([n |-> "squeeze", d |-> d, a |-> a], Power(Elements("create", d), 2))
    (* thermal occupation and polarisation where exp(frequency / temperature) = q *)
    \/ \E q \in 2..9 : \E t \in 1..3 : Call([n |-> "thermal", q |-> q, t |-> t], [nbar |-> <<1, q - 1>>, pol |-> <<1 - q, 1 + q>>])
    (* a decaying and a dephasing qubit: n steps of t / 10; states and calls of the function are n + 1 *)
    \/ \E q \in 0..MaxN : \E t \in 1..7 : \E c \in {"decay", "dephase"} :
          Call([n |-> "evolve", q |-> q, t |-> t, c |-> c], [states |-> q + 1])
    (* eigenvalues of [[a, b], [b, a]] on the numbers i, i + 1 and e elsewhere *)
    \/ \E a \in -2..3 : \E b \in 0..3 : \E e \in 4..6 : Call([n |-> "eig", a |-> a, b |-> b, e |-> e], [vals |-> <<a - b, a + b, e * 2>>])

    (* a resonant or detuned Jaynes-Cummings model in its closed form: the coupling it solves *)
    \/ \E d \in 2..5 : \E w \in 1..3 : \E t \in 0..3 : Call([n |-> "ujc", d |-> d, w |-> w, t |-> t], Coupling("JC", d))
    (* the steady state of a ladder that is climbed with rate u and descended with rate v per quantum: detailed balance *)
    \/ \E d \in 2..4 : \E u \in 0..3 : \E v \in 1..4 : Call([n |-> "steady", d |-> d, u |-> u, v |-> v], Ladder0(d, u, v))

Init == out = {} /\ act = [n |-> "init"]
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* the defining algebra, exactly *)
El(E, i, j) == {e \in E : e.r = i /\ e.c = j}
SqRow(E, i) == SumS({e \in E : e.r = i}, LAMBDA e : e.n)          \* 16 * sum over j of |E_ij|^2
Casimir == (act.n = "op" /\ act.op = "Js") =>
    \A i \in I0(act.d) : /\ 4 * (SqRow(Elements("Jx", act.d), i) + SqRow(Elements("Jy", act.d), i) + SqRow(Elements("Jz", act.d), i)) = 16 * (Sq(act.d) - 1)
                         /\ \E e \in El(out, i, i) : e.n = Sq(Sq(act.d) - 1)
(* J+ J- - J- J+ = 2 Jz, and J+ raises m by one *)
Raises == (act.n = "op" /\ act.op = "Jp") =>
    /\ \A e \in out : M2(act.d, e.r) - M2(act.d, e.c) = 2
    /\ \A i \in I0(act.d) : SqRow(out, i) - SqRow(Elements("Jm", act.d), i) = 16 * M2(act.d, i)
(* a a^+ - a^+ a = 1 except at the cut-off *)
Ladder == (act.n = "op" /\ act.op = "destroy") =>
    \A i \in 0..(act.d - 2) : SqRow(out, i) - SqRow(Elements("create", act.d), i) = 16
(* the JC coupling conserves the number of excitations, the counter-rotating one changes it by two *)
Excitations(e, d) == LET ex(x) == (x % d) + (IF x < d THEN 1 ELSE 0) IN ex(e.r) - ex(e.c)
Conserves == act.n = "coupling" =>
    /\ \A e \in out : (act.op = "JC" => Excitations(e, act.d) = 0) /\ (act.op = "aJC" => Excitations(e, act.d) \in {2, 0 - 2})
    /\ \A e \in out : \E f \in out : f.r = e.c /\ f.c = e.r /\ f.n = e.n
    /\ Coupling("Rabi", act.d) = Coupling("JC", act.d) \cup Coupling("aJC", act.d)
(* nothing flows on balance between neighbouring levels *)
Balance == act.n = "steady" => \A i \in 1..(act.d - 1) : out[i] * act.u * i = out[i + 1] * act.v * i
Normal == (act.n \in {"superpos", "composite"}) => LET den == out[1].d IN SumS(DOMAIN out, LAMBDA i : out[i].n) = den /\ \A i \in DOMAIN out : out[i].d = den
Hermitian == (act.n \in {"op", "fixed"} /\ act.op \in {"Jx", "Jy", "Jz", "Js", "number", "sigmax", "sigmay", "sigmaz", "parity", "identity"}) =>
    \A e \in out : \E f \in out : f.r = e.c /\ f.c = e.r /\ f.n = e.n /\ (e.n = 0 \/ (f.k + e.k) % 4 = 0)

Obs == out
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
EmitS == PrintT("STEP " \o ToJson([l |-> TLCGet("level"), a |-> act, s |-> V, o |-> Obs]))
=============================================================================
