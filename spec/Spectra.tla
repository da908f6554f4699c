------------------------------- MODULE Spectra -------------------------------
(* Statistics of eigenvalues and eigenvectors: the distributions of random    *)
(* matrix theory by their moments (rational numbers, or rational numbers      *)
(* times a power of pi), and the squared components of eigenvectors and kets  *)
(* as fractions.  Every call is one transition from the initial state.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDim, MaxK, MaxW, MaxX, Large      \* Large: numbers of components of large matrices

VARIABLES out, act
vars == <<out, act>>
V == <<act>>

(* ---- eigenvector components ---------------------------------------------- *)
(* with y independent squared components of a vector of n in all, the k-th moment of one of them: a Beta distribution *)
RECURSIVE Rise(_, _)
Rise(a, k) == IF k = 0 THEN 1 ELSE a * Rise(a + 1, k - 1)
(* beta = 1: Beta(1/2, (d-1)/2), 2: Beta(1, d-1), 4: Beta(2, d-2) where d counts both halves of a quaternion *)
RECURSIVE Odd(_, _, _)
Odd(a, k, s) == IF k = 0 THEN 1 ELSE a * Odd(a + s, k - 1, s)
Moment(beta, d, k) == CASE beta = 1 -> <<Odd(1, k, 2), Odd(d, k, 2)>>
                        [] beta = 2 -> <<Rise(1, k), Rise(d, k)>>
                        [] beta = 4 -> <<Rise(2, k), Rise(d, k)>>
(* ---- spacings of neighbouring levels: moments <<numerator, denominator, power of pi>>; beta = 0: no repulsion *)
Spacing(beta, k) == CASE k < 2 -> <<1, 1, 0>>
                      [] k = 2 -> CASE beta = 0 -> <<2, 1, 0>> [] beta = 1 -> <<4, 1, 0 - 1>> [] beta = 2 -> <<3, 8, 1>> [] beta = 4 -> <<45, 128, 1>>
(* ---- numbers of events: terms of the series of exp(l), as fractions of the number of no events *)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Events(l, x) == <<Pow(l, x), Fact(x)>>

(* ---- components of vectors ------------------------------------------------ *)
Sq(x) == x * x
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Comps(w) == LET s == SumTo([i \in DOMAIN w |-> Sq(w[i])], Len(w)) IN [i \in DOMAIN w |-> <<Sq(w[i]), s>>]
Pairs(c) == [i \in 1..(Len(c) \div 2) |-> <<c[2 * i - 1][1] + c[2 * i][1], c[1][2]>>]
(* the eigenvectors of a product of rotations by a and b: (a1, a2), (-a2, a1), each with (b1, b2), (-b2, b1) *)
Rot(a) == <<a, <<0 - a[2], a[1]>>>>
Kron(x, y) == <<x[1] * y[1], x[1] * y[2], x[2] * y[1], x[2] * y[2]>>
Vecs(a, b) == [i \in 1..4 |-> Kron(Rot(a)[((i - 1) \div 2) + 1], Rot(b)[((i - 1) % 2) + 1])]

Call(a, o) == act.n = "init" /\ act' = a /\ out' = o
W == (0 - MaxW)..MaxW
NonZero(w) == \E i \in DOMAIN w : w[i] # 0
Next ==
    \/ \E beta \in {1, 2, 4} : \E d \in (4..MaxDim) \cup Large : \E k \in 0..(IF d \in Large THEN 2 ELSE MaxK) :
          Call([n |-> "vector", beta |-> beta, d |-> d, k |-> k], Moment(beta, d, k))
    \/ \E beta \in {0, 1, 2, 4} : \E k \in 0..2 : Call([n |-> "spacing", beta |-> beta, k |-> k], Spacing(beta, k))
    \/ \E l \in 1..4 : \E x \in 0..MaxX : Call([n |-> "events", l |-> l, x |-> x], Events(l, x))
    \/ \E d \in 2..4 : \E w \in {w \in [1..d -> W] : NonZero(w)} :
          Call([n |-> "ket", w |-> w], [c |-> Comps(w), p |-> Pairs(Comps(w))])
    \/ \E a \in {w \in [1..2 -> 0..MaxW] : NonZero(w)} : \E b \in {w \in [1..2 -> 0..MaxW] : NonZero(w)} :
          Call([n |-> "vectors", a |-> a, b |-> b],
               [c |-> [i \in 1..4 |-> Comps(Vecs(a, b)[i])], p |-> [i \in 1..4 |-> Pairs(Comps(Vecs(a, b)[i]))], v |-> Vecs(a, b)])

Init == out = <<>> /\ act = [n |-> "init"]
Spec == Init /\ [][Next]_vars

(* distributions are normalised, the mean component is one over the number of components (2 over it for pairs) *)
Normal == (act.n \in {"vector", "spacing"} /\ act.k = 0) => out[1] = out[2]
Mean == (act.n = "vector" /\ act.k = 1) => out[1] * act.d = out[2] * (IF act.beta = 4 THEN 2 ELSE 1)
(* components of a vector sum to one, also in pairs (if there is an even number of them); eigenvectors are orthogonal *)
One == /\ act.n = "ket" => SumTo([i \in DOMAIN out.c |-> out.c[i][1]], Len(out.c)) = out.c[1][2]
       /\ (act.n = "ket" /\ Len(act.w) # 3) => SumTo([i \in DOMAIN out.p |-> out.p[i][1]], Len(out.p)) = out.p[1][2]
Orthogonal == act.n = "vectors" => \A i, j \in 1..4 : i # j => SumTo([k \in 1..4 |-> out.v[i][k] * out.v[j][k]], 4) = 0
(* the moments of what takes values between 0 and 1 decrease *)
Decrease == (act.n = "vector" /\ act.k > 0) => out[1] * Moment(act.beta, act.d, act.k - 1)[2] <= out[2] * Moment(act.beta, act.d, act.k - 1)[1]

Obs == out
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
EmitS == PrintT("STEP " \o ToJson([l |-> TLCGet("level"), a |-> act, s |-> V, o |-> Obs]))
=============================================================================
