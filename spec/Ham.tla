-------------------------------- MODULE Ham --------------------------------
(* Hamiltonians of systems whose terms, parameters and dimensions keep       *)
(* changing.  The specification has no caches: the Hamiltonian of a system   *)
(* is, at every moment, the sum over the terms listed by the system and by   *)
(* everything below it of                                                    *)
(*     frequency * (operator ^ order) x ... x (operator ^ order)             *)
(* each factor placed at its system.  The real code caches all of these      *)
(* matrices; reading one of them is not an action of the specification.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, Nested, Dims, Freqs, Ops, Ords, MaxT, Leaf2Terms

Leaves == IF Nested THEN 1..3 ELSE 1..2
Comps  == IF Nested THEN {4, 5} ELSE {4}
Nodes  == Leaves \cup Comps
Sub(c) == IF c = 4 THEN <<1, 2>> ELSE <<4, 3>>
Root   == IF Nested THEN 5 ELSE 4
Order  == IF Nested THEN <<1, 2, 3>> ELSE <<1, 2>>
Under(n) == IF n \in Leaves THEN {n} ELSE IF n = 4 THEN {4, 1, 2} ELSE Nodes
Pauli  == {"sigmax", "sigmaz"}
None   == -99

VARIABLES dim, terms, act
vars == <<dim, terms, act>>
V == <<dim, terms>>

Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S

(* dimensions before, of and after a system in the tensor product *)
RECURSIVE Prod(_)
Prod(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN dim[x] * Prod(S \ {x})
Before(n) == Prod({l \in Leaves : \A m \in Under(n) \cap Leaves : l < m})
Of(n)     == Prod(Under(n) \cap Leaves)
After(n)  == Prod({l \in Leaves : \A m \in Under(n) \cap Leaves : l > m})

(* a term: id, the system that lists it, the systems it acts on, operators (<<>>: not given), orders, frequency *)
Ids == 1..MaxT
T(id) == CHOOSE i \in 1..Len(terms) : terms[i].id = id
Used == {terms[i].id : i \in 1..Len(terms)}
NewId == CHOOSE i \in Ids : i \notin Used /\ \A j \in 1..(i - 1) : j \in Used
OfSys(n) == SelectSeq(terms, LAMBDA t : t.at = n)
HasFirst(n) == OfSys(n) # <<>>
First(n) == OfSys(n)[1].id

PauliOk(q, ops) == \A i \in 1..Len(q) : (ops # <<>> /\ ops[i] \in Pauli) => Of(q[i]) = 2

TermH(t) == [f |-> t.f, fac |-> [i \in 1..Len(t.q) |-> <<Before(t.q[i]), Of(t.q[i]), After(t.q[i]), t.op[i], t.ord[i]>>]]
Active(n) == SelectSeq(terms, LAMBDA t : t.at \in Under(n) /\ t.op # <<>>)
NoFreq == <<[f |-> None, fac |-> <<>>]>>       \* a term without frequency: there is no Hamiltonian
Ham(n) == LET a == Active(n) IN
          IF \E i \in 1..Len(a) : a[i].f = None THEN NoFreq
          ELSE [i \in 1..Len(a) |-> TermH(a[i])]

--------------------------------------------------------------------------
Init == /\ dim = [l \in Leaves |-> 2]
        /\ terms = <<[id |-> 1, at |-> 1, q |-> <<1>>, op |-> <<"number">>, ord |-> <<1>>, f |-> 1]>>
        /\ act = [n |-> "init"]

Upd(id, field, v) == terms' = [terms EXCEPT ![T(id)] = [@ EXCEPT ![field] = v]]

SetFreq(id, f, via) ==
    /\ Upd(id, "f", f) /\ UNCHANGED dim
    /\ act' = [n |-> "freq", id |-> id, v |-> f, via |-> via, at |-> terms[T(id)].at, res |-> "ok"]

SetOrd(id, o, via) ==
    /\ Upd(id, "ord", o) /\ UNCHANGED dim
    /\ act' = [n |-> "ord", id |-> id, v |-> o, via |-> via, at |-> terms[T(id)].at, res |-> "ok"]

SetOp(id, op, via) ==
    /\ UNCHANGED dim
    /\ act' = [n |-> "op", id |-> id, v |-> op, via |-> via, at |-> terms[T(id)].at,
               res |-> IF PauliOk(terms[T(id)].q, op) THEN "ok" ELSE "err"]
    /\ IF PauliOk(terms[T(id)].q, op) THEN Upd(id, "op", op) ELSE UNCHANGED terms

(* a new list of systems for a coupling; its operators have to be given again *)
SetSys(id, q) ==
    /\ Len(terms[T(id)].q) = 2 /\ UNCHANGED dim
    /\ terms' = [terms EXCEPT ![T(id)] = [@ EXCEPT !.q = q, !.op = <<>>, !.ord = <<1, 1>>]]
    /\ act' = [n |-> "sys", id |-> id, v |-> q, res |-> "ok"]

SetDim(l, d) ==
    /\ d # dim[l]
    /\ LET bad == d # 2 /\ \E i \in 1..Len(terms) : \E k \in 1..Len(terms[i].q) :
                                 terms[i].q[k] = l /\ terms[i].op # <<>> /\ terms[i].op[k] \in Pauli
           worse == \E i \in 1..Len(terms) : \E k \in 1..Len(terms[i].q) :
                                 terms[i].q[k] \in Comps /\ l \in Under(terms[i].q[k]) /\ terms[i].op # <<>> /\ terms[i].op[k] \in Pauli
       IN /\ ~worse
          /\ dim' = IF bad THEN dim ELSE [dim EXCEPT ![l] = d]
          /\ act' = [n |-> "dim", x |-> l, v |-> d, res |-> IF bad THEN "err" ELSE "ok"]
    /\ UNCHANGED terms

(* a term on one system, created through the system itself or through a composite above it *)
AddTerm(n, via, op, o, f) ==
    /\ Len(terms) < MaxT /\ n \in Under(via) /\ UNCHANGED dim
    /\ LET ok == PauliOk(<<n>>, <<op>>) IN
       /\ terms' = IF ok THEN Append(terms, [id |-> NewId, at |-> n, q |-> <<n>>, op |-> <<op>>, ord |-> <<o>>, f |-> f]) ELSE terms
       /\ act' = [n |-> "term", at |-> n, via |-> via, id |-> NewId, op |-> op, ord |-> o, f |-> f, res |-> IF ok THEN "ok" ELSE "err"]

AddCpl(c, i, j, oi, oj, f) ==
    /\ Len(terms) < MaxT /\ {i, j} \subseteq Under(c) \ {c} /\ UNCHANGED dim
    /\ LET ok == PauliOk(<<i, j>>, <<oi, oj>>) IN
       /\ terms' = IF ok THEN Append(terms, [id |-> NewId, at |-> c, q |-> <<i, j>>, op |-> <<oi, oj>>, ord |-> <<1, 1>>, f |-> f]) ELSE terms
       /\ act' = [n |-> "couple", at |-> c, id |-> NewId, q |-> <<i, j>>, op |-> <<oi, oj>>, f |-> f, res |-> IF ok THEN "ok" ELSE "err"]

Remove(id, via) ==
    /\ terms[T(id)].at \in Under(via) /\ UNCHANGED dim
    /\ terms' = SelectSeq(terms, LAMBDA t : t.id # id)
    /\ act' = [n |-> "remove", id |-> id, via |-> via, res |-> "ok"]

Reset(n) ==
    /\ terms' = SelectSeq(terms, LAMBDA t : t.at # n) /\ UNCHANGED dim
    /\ act' = [n |-> "reset", x |-> n, res |-> "ok"]

(* all terms of a system replaced by assignment *)
Assign(n, op, f) ==
    /\ HasFirst(n) /\ PauliOk(<<n>>, <<op>>) /\ UNCHANGED dim
    /\ LET rest == SelectSeq(terms, LAMBDA t : t.at # n)
           id == CHOOSE i \in Ids : i \notin {rest[k].id : k \in 1..Len(rest)}
       IN /\ terms' = Append(rest, [id |-> id, at |-> n, q |-> <<n>>, op |-> <<op>>, ord |-> <<1>>, f |-> f])
          /\ act' = [n |-> "assign", x |-> n, id |-> id, op |-> op, f |-> f, res |-> "ok"]

(* frequency or operator of a system without terms: the system gets a first term *)
SysNew(n, what, v) ==
    /\ ~HasFirst(n) /\ Len(terms) < MaxT /\ UNCHANGED dim
    /\ LET ok == what = "freq" \/ PauliOk(<<n>>, <<v>>) IN
       /\ terms' = Append(terms, [id |-> NewId, at |-> n, q |-> <<n>>, ord |-> <<1>>,
                            op |-> IF what = "op" /\ ok THEN <<v>> ELSE <<>>, f |-> IF what = "freq" THEN v ELSE None])
       /\ act' = [n |-> "sysnew", x |-> n, what |-> what, v |-> v, id |-> NewId, res |-> IF ok THEN "ok" ELSE "err"]

Via(id) == IF HasFirst(terms[T(id)].at) /\ First(terms[T(id)].at) = id THEN {"term", "system"} ELSE {"term"}
OpsFor(id) == IF Len(terms[T(id)].q) = 1 THEN {<<o>> : o \in Ops} ELSE {<<o, p>> : o \in Ops, p \in Ops}
OrdsFor(id) == IF Len(terms[T(id)].q) = 1 THEN {<<o>> : o \in Ords} ELSE {<<o, p>> : o \in Ords, p \in Ords}
Above(n) == {m \in Nodes : n \in Under(m)}

Next ==
    \/ \E id \in Pick(Used) : \E f \in Pick(Freqs) : \E via \in Pick(Via(id)) : SetFreq(id, f, via)
    \/ \E id \in Pick(Used) : \E o \in Pick(OrdsFor(id)) : \E via \in Pick(Via(id)) : SetOrd(id, o, via)
    \/ \E id \in Pick(Used) : \E o \in Pick(OpsFor(id)) : \E via \in Pick(Via(id)) : SetOp(id, o, via)
    \/ \E id \in Pick({k \in Used : Len(terms[T(k)].q) = 2}) : \E i \in Pick(Under(terms[T(id)].at) \ {terms[T(id)].at}) :
            \E j \in Pick(Under(terms[T(id)].at) \ {terms[T(id)].at}) : SetSys(id, <<i, j>>)
    \/ \E l \in Pick(Leaves) : \E d \in Pick(Dims) : SetDim(l, d)
    \/ \E n \in Pick(Leaf2Terms) : \E via \in Pick(Above(n)) : \E op \in Pick(Ops) : \E o \in Pick(Ords) : \E f \in Pick(Freqs) : AddTerm(n, via, op, o, f)
    \/ \E c \in Pick(Comps) : \E i \in Pick(Under(c) \ {c}) : \E j \in Pick(Under(c) \ {c}) :
            \E oi \in Pick(Ops) : \E oj \in Pick(Ops) : \E f \in Pick(Freqs) : AddCpl(c, i, j, oi, oj, f)
    \/ \E id \in Pick(Used) : \E via \in Pick(Above(terms[T(id)].at)) : Remove(id, via)
    \/ \E n \in Pick({m \in Nodes : HasFirst(m)}) : Reset(n)
    \/ \E n \in Pick({m \in Leaf2Terms : HasFirst(m)}) : \E op \in Pick(Ops) : \E f \in Pick(Freqs) : Assign(n, op, f)
    \/ \E n \in Pick({m \in Leaves \cap Leaf2Terms : ~HasFirst(m)}) : \E f \in Pick(Freqs) : SysNew(n, "freq", f)
    \/ \E n \in Pick({m \in Leaves \cap Leaf2Terms : ~HasFirst(m)}) : \E op \in Pick(Ops) : SysNew(n, "op", op)

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* properties of the design *)
DistinctIds == Cardinality(Used) = Len(terms)
Placed == \A n \in Nodes : Before(n) * Of(n) * After(n) = Prod(Leaves)
PauliAlways == \A i \in 1..Len(terms) : PauliOk(terms[i].q, terms[i].op)
Inside == \A i \in 1..Len(terms) : \A k \in 1..Len(terms[i].q) : terms[i].q[k] \in Under(terms[i].at)
(* what a composite sums is exactly what its parts sum plus what it lists itself *)
Additive == \A c \in Comps : Ham(c) # NoFreq =>
    Len(Ham(c)) = Len(Ham(Sub(c)[1])) + Len(Ham(Sub(c)[2])) + Len(SelectSeq(terms, LAMBDA t : t.at = c /\ t.op # <<>>))

Obs == [dims |-> [i \in 1..Len(Order) |-> dim[Order[i]]],
        ham |-> [n \in 1..5 |-> IF n \in Nodes THEN Ham(n) ELSE <<>>],
        listed |-> [n \in 1..5 |-> IF n \in Nodes THEN [i \in 1..Len(OfSys(n)) |-> OfSys(n)[i].id] ELSE <<>>],
        first |-> [n \in 1..5 |-> IF n \in Leaves /\ HasFirst(n) THEN <<OfSys(n)[1].f>> ELSE <<>>]]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
==============================================================================
