------------------------------ MODULE Composite ------------------------------
(* Composite quantum systems: single systems (leaves) with dimensions are     *)
(* nested into composite systems, taken out again, re-dimensioned, coupled.   *)
(* The specification prescribes, at any moment, the dimension of every system *)
(* and the Hamiltonian of every system as an operator of the whole structure  *)
(* it is part of: the leaves appear in the tensor product in the order the    *)
(* structure lists them.  Every leaf has the Hamiltonian F[l] * number        *)
(* operator and every coupling is G * (number x number).  A Hamiltonian is    *)
(* prescribed as the factors of the tensor product it acts on and the number  *)
(* operators (coefficient, positions) it sums; Diag is its integer diagonal.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, NL, NC, Dims, MaxCpl

Leaves == 1..NL
Comps  == (NL+1)..(NL+NC)
Nodes  == 1..(NL+NC)
F == <<1, 10, 100, 1000>>
G == <<10000, 300000, 7000000>>

VARIABLES sub, dim, cpl, act
vars == <<sub, dim, cpl, act>>
V == <<sub, dim, cpl>>

Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S   \* act: keeps TLC from evaluating it once for all
Range(s) == {s[i] : i \in 1..Len(s)}

Parent(n) == IF \E c \in Comps : n \in Range(sub[c]) THEN CHOOSE c \in Comps : n \in Range(sub[c]) ELSE 0
RECURSIVE Root(_)
Root(n) == IF Parent(n) = 0 THEN n ELSE Root(Parent(n))
RECURSIVE Under(_)            \* a system and everything below it
Under(n) == IF n \in Leaves THEN {n} ELSE {n} \cup UNION {Under(m) : m \in Range(sub[n])}

RECURSIVE Cat(_, _)
Cat(f, k) == IF k = 0 THEN <<>> ELSE Cat(f, k - 1) \o f[k]
RECURSIVE Order(_)            \* the leaves below a system, in tensor product order
Order(n) == IF n \in Leaves THEN <<n>> ELSE Cat([i \in 1..Len(sub[n]) |-> Order(sub[n][i])], Len(sub[n]))

RECURSIVE Prod(_, _, _)       \* product of the dimensions of ls[a..b]
Prod(ls, a, b) == IF a > b THEN 1 ELSE dim[ls[a]] * Prod(ls, a + 1, b)
Dim(n) == LET ls == Order(n) IN Prod(ls, 1, Len(ls))

(* what the k-th basis state of the structure has in its p-th leaf *)
Digit(ls, p, k) == (k \div Prod(ls, p + 1, Len(ls))) % dim[ls[p]]

(* Hamiltonian of system n, as an operator of the structure it belongs to *)
Ham(n) == LET ls == Order(Root(n))
              pos(l) == CHOOSE p \in 1..Len(ls) : ls[p] = l
              U == Under(n)
          IN  [dims |-> [p \in 1..Len(ls) |-> dim[ls[p]]],
               one  |-> {<<F[l], pos(l)>> : l \in U \cap Leaves},
               two  |-> {<<G[cpl[c].g], pos(cpl[c].i), pos(cpl[c].j)>> : c \in {d \in DOMAIN cpl : cpl[d].at \in U}}]

RECURSIVE Tot(_, _, _)
Tot(S, ls, k) == IF S = {} THEN 0 ELSE
    LET x == CHOOSE x \in S : TRUE
    IN  x[1] * Digit(ls, x[2], k) * (IF Len(x) = 3 THEN Digit(ls, x[3], k) ELSE 1) + Tot(S \ {x}, ls, k)
Diag(n) == LET ls == Order(Root(n)) h == Ham(n) IN [k \in 1..Dim(Root(n)) |-> Tot(h.one \cup h.two, ls, k - 1)]

RECURSIVE DimTree(_)
DimTree(n) == IF n \in Leaves THEN dim[n] ELSE IF sub[n] = <<>> THEN 1 ELSE [i \in 1..Len(sub[n]) |-> DimTree(sub[n][i])]

--------------------------------------------------------------------------
Init == /\ sub = [c \in Comps |-> <<>>]
        /\ dim = [l \in Leaves |-> 2]
        /\ cpl = <<>>
        /\ act = [n |-> "init"]

(* a system without a parent is added; re-adding changes nothing; nesting a system inside itself is refused *)
Add(c, n) ==
    /\ Parent(n) \in {0, c}
    /\ IF c \in Under(n)
         THEN UNCHANGED sub /\ act' = [n |-> "add", c |-> c, x |-> n, res |-> "err"]
         ELSE /\ sub' = IF n \in Range(sub[c]) THEN sub ELSE [sub EXCEPT ![c] = Append(@, n)]
              /\ act' = [n |-> "add", c |-> c, x |-> n, res |-> "ok"]
    /\ UNCHANGED <<dim, cpl>>

AddToLeaf(l, n) ==
    /\ l # n /\ Parent(n) = 0 /\ l \notin Under(n)
    /\ act' = [n |-> "add", c |-> l, x |-> n, res |-> "err"]
    /\ UNCHANGED <<sub, dim, cpl>>

Without(s, n) == SelectSeq(s, LAMBDA m : m # n)

(* taking system n out, through any composite system `at` of the same structure: couplings that reach *)
(* across the cut disappear, couplings inside what is taken out stay with it                          *)
Cut(n, cs) == SelectSeq(cs, LAMBDA c : c.at \in Under(n) \/ (c.i \notin Under(n) /\ c.j \notin Under(n)))

Remove(at, n) ==
    /\ Parent(n) # 0 /\ Root(at) = Root(n)
    /\ sub' = [sub EXCEPT ![Parent(n)] = Without(@, n)]
    /\ cpl' = Cut(n, cpl)
    /\ act' = [n |-> "remove", at |-> at, x |-> n, res |-> "ok"]
    /\ UNCHANGED dim

RECURSIVE CutAll(_, _)
CutAll(ns, cs) == IF ns = <<>> THEN cs ELSE CutAll(Tail(ns), Cut(Head(ns), cs))

Reset(c) ==
    /\ Len(sub[c]) > 0
    /\ sub' = [sub EXCEPT ![c] = <<>>]
    /\ cpl' = CutAll(sub[c], cpl)
    /\ act' = [n |-> "reset", c |-> c, res |-> "ok"]
    /\ UNCHANGED dim

SetDim(l, d) ==
    /\ d # dim[l]
    /\ dim' = [dim EXCEPT ![l] = d]
    /\ act' = [n |-> "setdim", x |-> l, d |-> d, res |-> "ok"]
    /\ UNCHANGED <<sub, cpl>>

(* the dimension of a composite system follows from its parts and cannot be set *)
SetDimComp(c) ==
    /\ Len(sub[c]) > 0
    /\ act' = [n |-> "setdim", x |-> c, d |-> 7, res |-> "ok"]
    /\ UNCHANGED <<sub, dim, cpl>>

FreeSlot == CHOOSE g \in 1..MaxCpl : /\ \A k1 \in DOMAIN cpl : cpl[k1].g # g
                                      /\ \A h \in 1..(g - 1) : \E k2 \in DOMAIN cpl : cpl[k2].g = h

(* a coupling lives at a composite system that contains both coupled systems *)
Couple(c, i, j) ==
    /\ Len(cpl) < MaxCpl /\ i # j
    /\ IF {i, j} \subseteq Under(c)
         THEN cpl' = Append(cpl, [at |-> c, i |-> i, j |-> j, g |-> FreeSlot])
              /\ act' = [n |-> "couple", c |-> c, i |-> i, j |-> j, g |-> G[FreeSlot], res |-> "ok"]
         ELSE UNCHANGED cpl /\ act' = [n |-> "couple", c |-> c, i |-> i, j |-> j, g |-> 1, res |-> "err"]
    /\ UNCHANGED <<sub, dim>>

Uncouple(k) ==
    /\ cpl' = [x \in 1..(Len(cpl) - 1) |-> cpl[IF x < k THEN x ELSE x + 1]]
    /\ act' = [n |-> "uncouple", g |-> G[cpl[k].g], res |-> "ok"]
    /\ UNCHANGED <<sub, dim>>

Next == \/ \E c \in Pick(Comps) : \E n \in Pick(Nodes) : Add(c, n)
        \/ \E c \in Pick(Comps) : \E n \in Pick({m \in Nodes : Parent(m) = 0 /\ c \notin Under(m)}) : Add(c, n)
        \/ \E l \in Pick(Leaves) : \E n \in Pick(Nodes) : AddToLeaf(l, n)
        \/ \E n \in Pick({m \in Nodes : Parent(m) # 0}) : \E at \in Pick({c \in Comps : Root(c) = Root(n)}) : Remove(at, n)
        \/ \E c \in Pick(Comps) : Reset(c)
        \/ \E l \in Pick(Leaves) : \E d \in Pick(Dims) : SetDim(l, d)
        \/ \E c \in Pick(Comps) : SetDimComp(c)
        \/ \E c \in Pick(Comps) : \E i \in Pick(Leaves) : \E j \in Pick(Leaves) : Couple(c, i, j)
        \/ \E k \in Pick(DOMAIN cpl) : Uncouple(k)
        \/ \E c \in Pick({c2 \in Comps : Cardinality(Under(c2) \cap Leaves) > 1}) : \E i \in Pick(Under(c) \cap Leaves) :
                 \E j \in Pick((Under(c) \cap Leaves) \ {i}) : Couple(c, i, j)

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* properties of the design *)
OneParent == \A n \in Nodes : Cardinality({c \in Comps : n \in Range(sub[c])}) <= 1
NoRepeat  == \A c \in Comps : Cardinality(Range(sub[c])) = Len(sub[c])
Acyclic   == \A c \in Comps : \A n \in Range(sub[c]) : c \notin Under(n)
DimIsProd == \A c \in Comps : Dim(c) = Prod(Order(c), 1, Len(Order(c)))
CplInside == \A k \in DOMAIN cpl : {cpl[k].i, cpl[k].j} \subseteq Under(cpl[k].at)
(* the Hamiltonian of a composite is the sum of those of its parts and of its own couplings; *)
(* every entry of it is what the occupation numbers of that basis state give                 *)
RECURSIVE SumOver(_, _)
SumOver(S, k) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Diag(x)[k] + SumOver(S \ {x}, k)
Additive  == \A c \in Comps : \A k \in 1..Dim(Root(c)) :
    Diag(c)[k] = SumOver(Range(sub[c]), k)
               + Tot({<<G[cpl[d].g], CHOOSE p \in 1..Len(Order(Root(c))) : Order(Root(c))[p] = cpl[d].i,
                                     CHOOSE p \in 1..Len(Order(Root(c))) : Order(Root(c))[p] = cpl[d].j>>
                      : d \in {e \in DOMAIN cpl : cpl[e].at = c}}, Order(Root(c)), k - 1)

Obs == [dim |-> [n \in Nodes |-> Dim(n)],
        sub |-> [c \in 1..NC |-> sub[NL + c]],
        tree |-> [n \in Nodes |-> DimTree(n)],
        ham |-> [n \in Nodes |-> Ham(n)]]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
==============================================================================
