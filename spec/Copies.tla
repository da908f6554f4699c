------------------------------ MODULE Copies ------------------------------
(* Building systems by arithmetic (a + b, k * a, a - b) and copying them.    *)
(* A copy is a new tree of systems with terms of its own; afterwards the     *)
(* original and the copy are changed in any order.                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Acts,       \* the kinds of transitions that are explored
          SIM, MaxN, MaxD, MaxT, Dims, Freqs, Ops, Ords, Kinds

VARIABLES s,    \* system -> [kind, dim, sub, terms, inp]
          act
vars == <<s, act>>
V == <<s>>
Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S

N == Len(s)
No == [k |-> "no"]
Comp(n) == s[n].kind = "comp"
Single(n) == s[n].kind \notin {"comp", "undec"}
Singles == {n \in 1..N : Single(n)}
CompsN == {n \in 1..N : Comp(n)}
Ups(n) == {c \in 1..N : n \in Range(s[c].sub)}
Top(n) == Ups(n) = {}
Tops == {n \in 1..N : Top(n)}
Pre(n) == LET f[m \in 1..N] == <<m>> \o FlattenSeq([i \in DOMAIN s[m].sub |-> f[s[m].sub[i]]])
          IN f[n]                                  \* the systems of a tree, each one before its parts
Flat(n) == SelectSeq(Pre(n), LAMBDA m : s[m].kind # "comp")
Root(n) == CHOOSE r \in 1..N : Top(r) /\ n \in Range(Pre(r))
Prod(q) == FoldLeft(LAMBDA p, m : p * s[m].dim, 1, q)
Dim(n) == Prod(Flat(n))
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x

(* Hamiltonian: every term of the tree, every factor placed in the tensor product of the whole *)
Place(fl, n) == LET mine == TLCEval(Flat(n))
                    i == Pos(fl, mine[1])
                IN TLCEval(<<Prod(SubSeq(fl, 1, i - 1)), Prod(mine), Prod(SubSeq(fl, i + Len(mine), Len(fl)))>>)
(* where every system is placed in the tensor product of its tree *)
Places == LET fl == TLCEval([r \in 1..N |-> IF Top(r) THEN Flat(r) ELSE <<>>])
              top == TLCEval([r \in 1..N |-> IF Top(r) THEN Range(Pre(r)) ELSE {}])
          IN TLCEval([n \in 1..N |-> IF Flat(n) = <<>> THEN <<1, 1, 1>> ELSE Place(fl[CHOOSE r \in 1..N : n \in top[r]], n)])
TermH(fl, t) == [f |-> t.f, fac |-> [k \in DOMAIN t.fac |-> Place(fl, t.fac[k][1]) \o <<t.fac[k][2], t.fac[k][3]>>]]
Ham(n) == LET fl == TLCEval(Flat(Root(n)))
              pre == TLCEval(Pre(n))
              ts == TLCEval(FlattenSeq([i \in DOMAIN pre |-> s[pre[i]].terms]))
          IN [i \in DOMAIN ts |-> TermH(fl, ts[i])]

(* initial state: the index of a basis state, -1: None, -2: an error *)
Kron(a, b, d) == IF a = -2 \/ b = -2 THEN -2 ELSE IF a = -1 \/ b = -1 THEN -1 ELSE a * d + b
Val(n) == LET v[m \in 1..N] == IF s[m].inp.k = "vec" THEN (IF s[m].inp.d = Dim(m) THEN s[m].inp.i ELSE -2)
                               ELSE IF s[m].kind = "comp" THEN FoldLeft(LAMBDA a, x : Kron(a, v[x], Dim(x)), 0, s[m].sub)
                               ELSE IF s[m].inp.k = "no" THEN -2 ELSE IF s[m].inp.i < s[m].dim THEN s[m].inp.i ELSE -1
          IN v[n]

(* ---- copies: the copy of the i-th system of the tree is system N + i ------ *)
Mapped(L, base, x) == IF x \in Range(L) THEN base + Pos(L, x) ELSE x
CopyRec(L, base, r) == [r EXCEPT !.sub = [i \in DOMAIN @ |-> Mapped(L, base, @[i])],
                                 !.terms = [i \in DOMAIN @ |-> [@[i] EXCEPT !.fac =
                                        [k \in DOMAIN @ |-> <<Mapped(L, base, @[k][1]), @[k][2], @[k][3]>>]]]]
Copied(st, L) == st \o [i \in 1..Len(L) |-> CopyRec(L, Len(st), st[L[i]])]
RECURSIVE Copies(_, _, _)
Copies(st, L, k) == IF k = 0 THEN st ELSE Copies(Copied(st, L), L, k - 1)

OpOf(kind) == IF kind = "cav" \/ kind = "sys" THEN "number" ELSE "Jz"
New(kind, d, f) ==
    /\ N < MaxN
    /\ s' = Append(s, [kind |-> kind, dim |-> IF kind = "undec" THEN 1 ELSE IF kind = "qubit" THEN 2 ELSE d, sub |-> <<>>, inp |-> No,
                       terms |-> IF kind = "undec" THEN <<>> ELSE <<[f |-> f, td |-> 0, fac |-> <<<<N + 1, OpOf(kind), 1>>>>]>>])
    /\ act' = [n |-> "new", kind |-> kind, d |-> IF kind = "qubit" THEN 2 ELSE d, f |-> f, id |-> N + 1]
NewComp == [kind |-> "comp", dim |-> 1, sub |-> <<>>, terms |-> <<>>, inp |-> No]

Copy(x, f) ==
    /\ N + Len(Pre(x)) <= MaxN
    /\ f # 0 => (Single(x) /\ s[x].terms # <<>>)
    /\ s' = LET t == Copied(s, Pre(x)) IN IF f = 0 THEN t ELSE [t EXCEPT ![N + 1].terms[1].f = f]
    /\ act' = [n |-> "copy", x |-> x, f |-> f, id |-> N + 1]

Append2(st, c, x) == [st EXCEPT ![c].kind = "comp", ![c].sub = Append(@, x)]
(* a + b *)
Plus(a, b) ==
    /\ Top(a) /\ Top(b) /\ s[b].kind # "undec" /\ Dim(a) * Dim(b) <= MaxD /\ (Comp(a) => s[a].sub # <<>>)
    /\ LET same == a = b
           L == Pre(a)
           st == IF same THEN Copied(s, L) ELSE s          \* a system added to itself is copied
           x == IF same THEN N + 1 ELSE b
           way == IF Single(b) /\ ~Single(a) THEN "intoleft"
                  ELSE IF s[a].kind = "undec" THEN "right"
                  ELSE IF Comp(a) = Comp(b) THEN "both" ELSE "intoright"
       IN /\ Len(st) < MaxN
          /\ s' = IF way = "intoleft" THEN Append2(st, a, x)
                  ELSE IF way = "intoright" THEN Append2(st, b, a)
                  ELSE IF way = "right" THEN s
                  ELSE Append(st, [NewComp EXCEPT !.sub = <<a, x>>])
          /\ act' = [n |-> "plus", a |-> a, b |-> b, way |-> way, copied |-> IF same THEN Len(L) ELSE 0,
                     id |-> IF way = "intoleft" THEN a ELSE IF way = "both" THEN Len(st) + 1 ELSE b]
(* k * a *)
RECURSIVE Pow(_, _)
Pow(d, k) == IF k = 0 THEN 1 ELSE d * Pow(d, k - 1)
Times(k, a) ==
    /\ Top(a) /\ s[a].kind # "undec" /\ Pow(Dim(a), k) <= MaxD
    /\ LET L == Pre(a)
           st == Copies(s, L, k - 1)
       IN /\ Len(st) < MaxN
          /\ s' = Append(st, [NewComp EXCEPT !.sub = [i \in 1..k |-> IF i = 1 THEN a ELSE N + 1 + (i - 2) * Len(L)]])
          /\ act' = [n |-> "times", k |-> k, a |-> a, id |-> Len(st) + 1]
(* c - x: also the couplings of the systems above that involve (a part of) x go away *)
Minus(c, x) ==
    /\ x \in Range(s[c].sub) /\ Len(s[c].sub) > 1
    /\ LET up == {m \in 1..N : c \in Range(Pre(m))} IN
       s' = [m \in 1..N |-> IF m \notin up THEN s[m]
               ELSE [s[m] EXCEPT !.sub = IF m = c THEN SelectSeq(@, LAMBDA y : y # x) ELSE @,
                                 !.terms = SelectSeq(@, LAMBDA t : Len(t.fac) = 1 \/ \A k \in DOMAIN t.fac : t.fac[k][1] \notin Range(Pre(x)))]]
    /\ act' = [n |-> "minus", c |-> c, x |-> x]
AddTerm(x, op, o, f) ==
    /\ s[x].kind # "undec" /\ Len(s[x].terms) < MaxT
    /\ s' = [s EXCEPT ![x].terms = Append(@, [f |-> f, td |-> 0, fac |-> <<<<x, op, o>>>>])]
    /\ act' = [n |-> "term", x |-> x, op |-> op, o |-> o, f |-> f]
Couple(c, fac, f) ==
    /\ Len(s[c].terms) < MaxT
    /\ s' = [s EXCEPT ![c].terms = Append(@, [f |-> f, td |-> 0, fac |-> fac])]
    /\ act' = [n |-> "couple", c |-> c, fac |-> fac, f |-> f]
Freq(x, i, f) ==
    /\ s' = [s EXCEPT ![x].terms[i].f = f] /\ act' = [n |-> "freq", x |-> x, i |-> i, f |-> f]
Oper(x, i, ops) ==
    /\ s' = [s EXCEPT ![x].terms[i].fac = [k \in DOMAIN @ |-> <<@[k][1], ops[k][1], ops[k][2]>>]]
    /\ act' = [n |-> "oper", x |-> x, i |-> i, ops |-> ops]
Drop(x, i) ==
    /\ s' = [s EXCEPT ![x].terms = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
    /\ act' = [n |-> "drop", x |-> x, i |-> i]
(* the term is updated by a function of time, number td (0: it is constant) *)
Timed(x, i, td) ==
    /\ s' = [s EXCEPT ![x].terms[i].td = td] /\ act' = [n |-> "timed", x |-> x, i |-> i, td |-> td]
SetDim(x, d) ==
    /\ Single(x) /\ s[x].kind # "qubit" /\ d # s[x].dim /\ (Dim(Root(x)) \div s[x].dim) * d <= MaxD
    /\ s' = [s EXCEPT ![x].dim = d] /\ act' = [n |-> "dim", x |-> x, d |-> d]
Input(x, i) ==
    /\ s' = [s EXCEPT ![x].inp = IF Comp(x) THEN [k |-> "vec", d |-> Dim(x), i |-> i] ELSE [k |-> "idx", i |-> i]]
    /\ act' = [n |-> "input", x |-> x, i |-> i]

Factors(c) == LET P == Range(Pre(c)) \ {c} IN
    IF SIM THEN {[i \in 1..RandomElement(2..3) |-> <<RandomElement(P), RandomElement(Ops), RandomElement(Ords)>>]}
    ELSE {<<<<x, a, 1>>, <<y, b, 1>>>> : x \in P, y \in P, a \in Ops, b \in Ops}
OpsFor(x, i) == LET n == Len(s[x].terms[i].fac) IN
    IF SIM THEN {[k \in 1..n |-> <<RandomElement(Ops), RandomElement(Ords)>>]} ELSE {[k \in 1..n |-> <<a, b>>] : a \in Ops, b \in Ords}
WithTerms == {n \in 1..N : s[n].terms # <<>>}
Full == {c \in CompsN : s[c].sub # <<>>}
Next ==
    \/ "new" \in Acts /\ \E k \in Pick(Kinds) : \E d \in Pick(Dims) : \E f \in Pick(Freqs) : New(k, d, f)
    \/ "copy" \in Acts /\ \E x \in Pick(1..N) : \E f \in Pick({0} \union Freqs) : Copy(x, f)
    \/ "plus" \in Acts /\ \E a \in Pick(Tops) : \E b \in Pick(Tops) : Plus(a, b)
    \/ "times" \in Acts /\ \E k \in Pick(1..3) : \E a \in Pick(Tops) : Times(k, a)
    \/ "minus" \in Acts /\ \E c \in Pick(Full) : \E x \in Pick(Range(s[c].sub)) : Minus(c, x)
    \/ "term" \in Acts /\ \E x \in Pick(Singles \union Full) : \E op \in Pick(Ops) : \E o \in Pick(Ords) : \E f \in Pick(Freqs) : AddTerm(x, op, o, f)
    \/ "couple" \in Acts /\ \E c \in Pick(Full) : \E fac \in Factors(c) : \E f \in Pick(Freqs) : Couple(c, fac, f)
    \/ "freq" \in Acts /\ \E x \in Pick(WithTerms) : \E i \in Pick(DOMAIN s[x].terms) : \E f \in Pick(Freqs) : Freq(x, i, f)
    \/ "oper" \in Acts /\ \E x \in Pick(WithTerms) : \E i \in Pick(DOMAIN s[x].terms) : \E o \in OpsFor(x, i) : Oper(x, i, o)
    \/ "drop" \in Acts /\ \E x \in Pick(WithTerms) : \E i \in Pick(DOMAIN s[x].terms) : Drop(x, i)
    \/ "timed" \in Acts /\ \E x \in Pick(WithTerms) : \E i \in Pick(DOMAIN s[x].terms) : \E td \in Pick(0..2) : Timed(x, i, td)
    \/ "dim" \in Acts /\ \E x \in Pick(Singles) : \E d \in Pick(Dims) : SetDim(x, d)
    \/ "input" \in Acts /\ \E x \in Pick(Singles \union Full) : \E i \in Pick(0..(Dim(x) - 1)) : Input(x, i)
Init == /\ s = <<[kind |-> "cav", dim |-> 2, sub |-> <<>>, inp |-> No, terms |-> <<[f |-> 1, td |-> 0, fac |-> <<<<1, "number", 1>>>>]>>]>>
        /\ act = [n |-> "init"]
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------
OneParent == \A x \in 1..N : Cardinality(Ups(x)) <= 1
(* the terms of a system act on systems of its own tree only: nothing is shared with a copy *)
Own == \A x \in 1..N : \A i \in DOMAIN s[x].terms : \A k \in DOMAIN s[x].terms[i].fac : s[x].terms[i].fac[k][1] \in Range(Pre(x))
(* right after copying, the copy looks like the original (in a tree of its own) *)
Same(x, y) ==
              /\ Dim(x) = Dim(y)
              /\ Val(x) = Val(y)
              /\ Len(Pre(x)) = Len(Pre(y))
              /\ \A i \in DOMAIN Pre(x) : LET a == s[Pre(x)[i]].terms b == s[Pre(y)[i]].terms IN
                    Len(a) = Len(b) /\ \A j \in DOMAIN a : a[j].td = b[j].td
              /\ (Top(x) => [i \in DOMAIN Ham(x) |-> Ham(x)[i].fac] = [i \in DOMAIN Ham(y) |-> Ham(y)[i].fac])
CopyIsEqual == act.n = "copy" => Same(act.x, act.id)
(* a change on one tree leaves the others alone *)
Independent == [][\A x \in 1..N : (act'.n \in {"freq", "oper", "term", "drop", "dim", "input"} /\ act'.x \notin Range(Pre(x)) /\ x \notin Range(Pre(act'.x)) /\ Root(act'.x) # Root(x))
                      => Ham(x)' = Ham(x) /\ Val(x)' = Val(x)]_vars

Obs == LET pl == Places IN
       [n \in 1..N |-> [sub |-> s[n].sub, dim |-> pl[n][2], total |-> pl[n][1] * pl[n][2] * pl[n][3], before |-> pl[n][1], after |-> pl[n][3],
                        terms |-> s[n].terms, kind |-> s[n].kind, top |-> Top(n),
                        val |-> IF s[n].kind = "undec" \/ (Comp(n) /\ s[n].sub = <<>>) THEN 0 - 3 ELSE Val(n)]]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
EmitS == PrintT("STEP " \o ToJson([l |-> TLCGet("level"), a |-> act, s |-> V, o |-> Obs]))
=============================================================================
