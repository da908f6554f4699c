------------------------------- MODULE Tensor -------------------------------
(* The linear algebra of the toolbox as a register machine with exact         *)
(* (Gaussian-integer) arithmetic: tensor products, placing an operator among  *)
(* other factors, products and powers, Hermitian conjugates, outer and inner  *)
(* products, partial traces, weighted sums, the maps X -> AX, XA, AXB and the *)
(* Lindblad generator written as super-operators on vectorised matrices, and  *)
(* the scalars made of them.  A register is [dims, k, m]: the dimensions of   *)
(* its tensor factors, "op" or "ket", and the matrix as a sequence of rows.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, MaxR, MaxD, MaxV, Ds, Lev, Acts, Places, MaxNew, MaxL

VARIABLES r, act
vars == <<r, act>>
V == <<r>>

Entries == CASE Lev = 1 -> {<<0, 0>>, <<1, 0>>}
             [] Lev = 2 -> {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<-1, 0>>}
             [] Lev = 3 -> {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<-1, 2>>}
Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S
N == Len(r)
Ops  == {i \in 1..N : r[i].k = "op"}
Kets == {i \in 1..N : r[i].k = "ket"}

(* complex integers *)
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], 0 - a[2]>>
RECURSIVE SumC(_, _)
SumC(s, n) == IF n = 0 THEN <<0, 0>> ELSE Add(SumC(s, n - 1), s[n])
Abs(x) == IF x < 0 THEN 0 - x ELSE x

(* matrices *)
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE <<0, 0>>]]
MM(A, B) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> SumC([k \in 1..Cols(A) |-> Mul(A[i][k], B[k][j])], Cols(A))]])
MA(A, B) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> Add(A[i][j], B[i][j])]])
Scale(c, A) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> Mul(c, A[i][j])]])
Hc(A) == TLCEval([i \in 1..Cols(A) |-> [j \in 1..Rows(A) |-> Conj(A[j][i])]])
Kron(A, B) == TLCEval([i \in 1..(Rows(A) * Rows(B)) |-> [j \in 1..(Cols(A) * Cols(B)) |->
                Mul(A[(i - 1) \div Rows(B) + 1][(j - 1) \div Cols(B) + 1], B[((i - 1) % Rows(B)) + 1][((j - 1) % Cols(B)) + 1])]])
Tr(A) == SumC([i \in 1..Rows(A) |-> A[i][i]], Rows(A))
RECURSIVE Pow(_, _)
Pow(A, n) == IF n = 1 THEN A ELSE MM(A, Pow(A, n - 1))
Small(A) == \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : Abs(A[i][j][1]) <= MaxV /\ Abs(A[i][j][2]) <= MaxV

(* positions: the digits of a row number, most significant (leftmost factor) first *)
RECURSIVE Prod(_)
Prod(d) == IF d = <<>> THEN 1 ELSE Head(d) * Prod(Tail(d))
RECURSIVE Digits(_, _)
Digits(x, d) == IF d = <<>> THEN <<>> ELSE <<x \div Prod(Tail(d))>> \o Digits(x % Prod(Tail(d)), Tail(d))
Sub(d, keep) == LET q == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : i \in keep) IN [i \in 1..Len(q) |-> d[q[i]]]
(* the sum of the elements whose traced digits agree *)
PTrace(A, d, keep) ==
    LET dk == Sub(d, keep)
        n == Prod(d)
        dg == TLCEval([x \in 1..n |-> Digits(x - 1, d)])
        kept == TLCEval([x \in 1..n |-> Sub(dg[x], keep)])
        gone == TLCEval([x \in 1..n |-> Sub(dg[x], (1..Len(d)) \ keep)])
        pick(i, j) == LET P == {<<x, y>> \in {z \in 1..n : kept[z] = Digits(i - 1, dk)} \X {z \in 1..n : kept[z] = Digits(j - 1, dk)} : gone[x] = gone[y]} IN P
        RECURSIVE S(_)
        S(Q) == IF Q = {} THEN <<0, 0>> ELSE LET q == CHOOSE q \in Q : TRUE IN Add(A[q[1]][q[2]], S(Q \ {q}))
    IN TLCEval([i \in 1..Prod(dk) |-> [j \in 1..Prod(dk) |-> S(pick(i, j))]])
Dens(x) == IF x.k = "op" THEN x.m ELSE MM(x.m, Hc(x.m))

--------------------------------------------------------------------------
Init == r = <<>> /\ act = [n |-> "init"]

Put(x, a) ==
    /\ Small(x.m)
    /\ r' = (IF N < MaxR THEN Append(r, x) ELSE Append(Tail(r), x))
    /\ act' = a
Say(v, a) == /\ UNCHANGED r /\ act' = [n |-> a.n, i |-> a.i, j |-> a.j, v |-> v]
Square(n) == IF SIM THEN {TLCEval([i \in 1..n |-> [j \in 1..n |-> RandomElement(Entries)]])} ELSE [1..n -> [1..n -> Entries]]
Column(n) == IF SIM THEN {TLCEval([i \in 1..n |-> <<RandomElement(Entries)>>])} ELSE [1..n -> [1..1 -> Entries]]

NewOp == N < MaxNew /\ \E d \in Pick(Ds) : \E m \in Square(d) : Put([dims |-> <<d>>, k |-> "op", m |-> m], [n |-> "newop"])
NewKet == N < MaxNew /\ \E d \in Pick(Ds) : \E m \in Column(d) : Put([dims |-> <<d>>, k |-> "ket", m |-> m], [n |-> "newket"])
Fits(ds) == Prod(ds) <= MaxD
Tensor2 == \E i \in Pick(1..N) : \E j \in Pick({j \in 1..N : r[j].k = r[i].k}) : Fits(r[i].dims \o r[j].dims)
              /\ Put([dims |-> r[i].dims \o r[j].dims, k |-> r[i].k, m |-> Kron(r[i].m, r[j].m)], [n |-> "tensor", a |-> <<i, j>>])
Tensor3 == \E i \in Pick(1..N) : \E j \in Pick({j \in 1..N : r[j].k = r[i].k}) : \E h \in Pick({q \in 1..N : r[q].k = r[i].k}) :
              Fits(r[i].dims \o r[j].dims \o r[h].dims)
              /\ Put([dims |-> r[i].dims \o r[j].dims \o r[h].dims, k |-> r[i].k, m |-> Kron(r[i].m, Kron(r[j].m, r[h].m))],
                     [n |-> "tensor", a |-> <<i, j, h>>])
One(x) == IF x = 1 THEN <<>> ELSE <<x>>
Place == \E i \in Pick(Ops) : \E b \in Pick(Places) : \E a \in Pick(Places) : Fits(<<b>> \o r[i].dims \o <<a>>)
              /\ Put([dims |-> One(b) \o r[i].dims \o One(a), k |-> "op", m |-> Kron(Id(b), Kron(r[i].m, Id(a)))],
                     [n |-> "place", i |-> i, b |-> b, f |-> a])
Product == \E i \in Pick(Ops) : \E j \in Pick({j \in 1..N : Prod(r[j].dims) = Prod(r[i].dims)}) :
              Put([dims |-> r[j].dims, k |-> r[j].k, m |-> MM(r[i].m, r[j].m)], [n |-> "mul", a |-> <<i, j>>])
Product3 == \E i \in Pick(Ops) : \E j \in Pick({j \in Ops : Prod(r[j].dims) = Prod(r[i].dims)}) :
            \E h \in Pick({q \in 1..N : Prod(r[q].dims) = Prod(r[i].dims)}) :
              Put([dims |-> r[h].dims, k |-> r[h].k, m |-> MM(r[i].m, MM(r[j].m, r[h].m))], [n |-> "mul", a |-> <<i, j, h>>])
Power == \E i \in Pick(Ops) : \E n \in Pick(1..3) : Put([r[i] EXCEPT !.m = Pow(@, n)], [n |-> "pow", i |-> i, p |-> n])
Dagger == \E i \in Pick(Ops) : Put([r[i] EXCEPT !.m = Hc(@)], [n |-> "hc", i |-> i])
Outer == \E i \in Pick(Kets) : \E j \in Pick({j \in Kets : r[j].dims = r[i].dims}) :
              Put([dims |-> r[i].dims, k |-> "op", m |-> MM(r[i].m, Hc(r[j].m))], [n |-> "outer", i |-> i, j |-> j])
Trace == \E i \in Pick({i \in 1..N : Len(r[i].dims) > 1}) : \E keep \in Pick({K \in SUBSET (1..Len(r[i].dims)) : K # {}}) :
              Put([dims |-> Sub(r[i].dims, keep), k |-> "op", m |-> PTrace(Dens(r[i]), r[i].dims, keep)],
                  [n |-> "ptrace", i |-> i, keep |-> [q \in 1..Cardinality(keep) |-> CHOOSE z \in keep : Cardinality({y \in keep : y < z}) = q - 1]])
Sum == \E i \in Pick(1..N) : \E j \in Pick({j \in 1..N : r[j].dims = r[i].dims /\ r[j].k = r[i].k}) : \E u \in Pick(-1..2) : \E v \in Pick(1..2) :
              Put([r[i] EXCEPT !.m = MA(Scale(<<u, 0>>, r[i].m), Scale(<<v, 0>>, r[j].m))], [n |-> "sum", i |-> i, j |-> j, u |-> u, v |-> v])
(* maps of a matrix X by super-operators made of A and B; the generator doubled, to remain with integers *)
Maps(A, B, X, h) ==
    CASE h = "pre" -> MM(A, X)
      [] h = "post" -> MM(X, A)
      [] h = "prepost" -> MM(A, MM(X, B))
      [] h = "lindblad" -> LET n == MM(Hc(A), A) IN MA(Scale(<<2, 0>>, MM(A, MM(X, Hc(A)))), Scale(<<-1, 0>>, MA(MM(n, X), MM(X, n))))
      [] h = "liouville" -> LET n == MM(Hc(A), A) IN
           MA(MA(Scale(<<0, -2>>, MM(B, X)), Scale(<<0, 2>>, MM(X, B))),
              MA(Scale(<<6, 0>>, MM(A, MM(X, Hc(A)))), Scale(<<-3, 0>>, MA(MM(n, X), MM(X, n)))))
Super == \E i \in Pick({i \in Ops : Prod(r[i].dims) <= 4}) : \E j \in Pick({j \in Ops : Prod(r[j].dims) = Prod(r[i].dims)}) :
         \E h \in Pick({q \in Ops : Prod(r[q].dims) = Prod(r[i].dims)}) : \E f \in Pick({"pre", "post", "prepost", "lindblad", "liouville"}) :
              Put([r[h] EXCEPT !.m = Maps(r[i].m, r[j].m, r[h].m, f)], [n |-> "super", f |-> f, i |-> i, j |-> j, h |-> h])

(* scalars (of numbers small enough for TLC's integers) *)
Few(i) == r[i].k = "op" \/ \A q \in 1..Rows(r[i].m) : Abs(r[i].m[q][1][1]) <= 20 /\ Abs(r[i].m[q][1][2]) <= 20
Inner(i, j) == MM(Hc(r[j].m), r[i].m)[1][1]
Expect(i, j) == Tr(MM(r[i].m, Dens(r[j])))
SInner == \E i \in Pick(Kets) : \E j \in Pick({j \in Kets : r[j].dims = r[i].dims}) : Say(Inner(i, j), [n |-> "inner", i |-> i, j |-> j])
STrace == \E i \in Pick(Ops) : Say(Tr(r[i].m), [n |-> "trace", i |-> i, j |-> i])
SExp == \E i \in Pick(Ops) : \E j \in Pick({j \in 1..N : Few(j) /\ Prod(r[j].dims) = Prod(r[i].dims)}) : Say(Expect(i, j), [n |-> "expect", i |-> i, j |-> j])
SPure == \E i \in Pick(Ops) : Say(Tr(MM(r[i].m, r[i].m)), [n |-> "purity", i |-> i, j |-> i])
SFid == \E i \in Pick({q \in 1..N : Few(q)}) : \E j \in Pick({q \in 1..N : Few(q) /\ Prod(r[q].dims) = Prod(r[i].dims)}) :
            Say(<<Tr(MM(Dens(r[i]), Dens(r[j])))[1], 0>>, [n |-> "fidelity", i |-> i, j |-> j])
(* the rate of change of the energy B in the state X under the generator h made of A and B *)
Low(i) == \A x \in 1..Rows(r[i].m) : \A y \in 1..Cols(r[i].m) : Abs(r[i].m[x][y][1]) <= 6 /\ Abs(r[i].m[x][y][2]) <= 6
SHeat == \E i \in Pick({i \in Ops : Low(i) /\ Prod(r[i].dims) <= 4}) : \E j \in Pick({j \in Ops : Low(j) /\ Prod(r[j].dims) = Prod(r[i].dims)}) :
         \E h \in Pick({q \in Ops : Low(q) /\ Prod(r[q].dims) = Prod(r[i].dims)}) : \E f \in Pick({"lindblad", "liouville"}) :
              /\ UNCHANGED r
              /\ act' = [n |-> "heat", i |-> i, j |-> j, h |-> h, f |-> f, v |-> <<Tr(MM(Maps(r[i].m, r[j].m, r[h].m, f), r[j].m))[1], 0>>]
SNorm == \E i \in Pick(Kets) : Say(Inner(i, i), [n |-> "norm", i |-> i, j |-> i])

Next ==
    \/ "newop" \in Acts /\ NewOp
    \/ "newket" \in Acts /\ NewKet
    \/ "tensor" \in Acts /\ Tensor2
    \/ "tensor3" \in Acts /\ Tensor3
    \/ "place" \in Acts /\ Place
    \/ "mul" \in Acts /\ Product
    \/ "mul3" \in Acts /\ Product3
    \/ "pow" \in Acts /\ Power
    \/ "hc" \in Acts /\ Dagger
    \/ "outer" \in Acts /\ Outer
    \/ "ptrace" \in Acts /\ Trace
    \/ "sum" \in Acts /\ Sum
    \/ "super" \in Acts /\ Super
    \/ "scalar" \in Acts /\ SInner
    \/ "scalar" \in Acts /\ STrace
    \/ "scalar" \in Acts /\ SExp
    \/ "scalar" \in Acts /\ SPure
    \/ "scalar" \in Acts /\ SFid
    \/ "scalar" \in Acts /\ SNorm
    \/ "heat" \in Acts /\ SHeat

Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------
(* properties of the design *)
Shape == \A i \in 1..N : Rows(r[i].m) = Prod(r[i].dims) /\ Cols(r[i].m) = IF r[i].k = "op" THEN Prod(r[i].dims) ELSE 1
(* the trace of what is left after a partial trace is the trace; a tensor product is traced back to its factors *)
TraceKeeps == act.n = "ptrace" /\ N < MaxR => Tr(r[N].m) = Tr(Dens(r[act.i]))
TraceBack == act.n = "tensor" /\ N < MaxR /\ Len(act.a) = 2 /\ r[N].k = "op" =>
    LET x == r[act.a[1]] y == r[act.a[2]] nx == Len(x.dims) IN
       /\ PTrace(r[N].m, r[N].dims, 1..nx) = Scale(Tr(y.m), x.m)
       /\ PTrace(r[N].m, r[N].dims, (nx + 1)..Len(r[N].dims)) = Scale(Tr(x.m), y.m)
(* the Lindblad generator keeps the trace *)
NoLoss == act.n = "super" /\ N < MaxR /\ act.f \in {"lindblad", "liouville"} => Tr(r[N].m) = <<0, 0>>
HcTwice == act.n = "hc" /\ N < MaxR => Hc(r[N].m) = r[act.i].m

Short == TLCGet("level") <= MaxL
Obs == [last |-> IF N = 0 THEN <<>> ELSE <<r[N]>>, n |-> N]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
EmitS == PrintT("STEP " \o ToJson([l |-> TLCGet("level"), a |-> act, s |-> V, o |-> Obs]))
=============================================================================
