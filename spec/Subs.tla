-------------------------------- MODULE Subs --------------------------------
(* Containers of objects: the sub-systems of an object are an ordered set of *)
(* objects; an object can be in several containers.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, Boxes, MaxObj, MaxList

VARIABLES n,     \* number of objects that exist (1..n)
          c,     \* container -> sequence of objects
          act
vars == <<n, c, act>>
V == <<n, c>>
Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S

Spell == {"ref", "name", "text", "alias", "alias2"}
Forms == {"one", "list", "tuple", "nested"}
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Put(s, x) == IF Has(s, x) THEN s ELSE Append(s, x)
RECURSIVE PutAll(_, _)
PutAll(s, l) == IF l = <<>> THEN s ELSE PutAll(Put(s, Head(l)), Tail(l))
Lists == UNION {[1..k -> 1..n] : k \in 1..MaxList}
NoRep(l) == \A i, j \in DOMAIN l : i # j => l[i] # l[j]
(* one random list *)
RL == IF SIM THEN {[i \in 1..RandomElement(1..MaxList) |-> RandomElement(1..n)]} ELSE Lists
RemL(b) == {l \in (IF SIM THEN {[i \in 1..RandomElement(1..MaxList) |-> c[b][RandomElement(1..Len(c[b]))]]} ELSE Lists) :
              NoRep(l) /\ \A i \in DOMAIN l : Has(c[b], l[i])}
Form(l) == IF Len(l) = 1 THEN Forms ELSE Forms \ {"one"}

Init == n = 2 /\ c = [b \in Boxes |-> <<>>] /\ act = [n |-> "init"]

Add(b, l, sp, f) ==
    /\ c' = [c EXCEPT ![b] = PutAll(@, l)] /\ UNCHANGED n
    /\ act' = [n |-> "add", b |-> b, l |-> l, sp |-> sp, f |-> f, res |-> "ok"]
(* by class: a new object *)
AddNew(b, how) ==
    /\ n < MaxObj /\ n' = n + 1 /\ c' = [c EXCEPT ![b] = Append(@, n + 1)]
    /\ act' = [n |-> "new", b |-> b, how |-> how, res |-> "ok"]
Remove(b, l, sp, f) ==
    /\ c' = [c EXCEPT ![b] = SelectSeq(@, LAMBDA x : \A i \in DOMAIN l : l[i] # x)] /\ UNCHANGED n
    /\ act' = [n |-> "remove", b |-> b, l |-> l, sp |-> sp, f |-> f, res |-> "ok"]
RemoveAbsent(b, x, sp) ==
    /\ ~Has(c[b], x) /\ UNCHANGED <<n, c>>
    /\ act' = [n |-> "remove", b |-> b, l |-> <<x>>, sp |-> sp, f |-> "one", res |-> "err"]
Unknown(b, what) == UNCHANGED <<n, c>> /\ act' = [n |-> "unknown", b |-> b, what |-> what, res |-> "err"]
Reset(b) == c[b] # <<>> /\ c' = [c EXCEPT ![b] = <<>>] /\ UNCHANGED n /\ act' = [n |-> "reset", b |-> b, res |-> "ok"]
Assign(b, l, sp, f) ==
    /\ c' = [c EXCEPT ![b] = PutAll(<<>>, l)] /\ UNCHANGED n
    /\ act' = [n |-> "assign", b |-> b, l |-> l, sp |-> sp, f |-> f, res |-> "ok"]
Object == n < MaxObj /\ n' = n + 1 /\ UNCHANGED c /\ act' = [n |-> "object", res |-> "ok"]

Next == \E b \in Pick(Boxes) :
    \/ \E l \in RL : \E sp \in Pick(Spell) : \E f \in Pick(Form(l)) : Add(b, l, sp, f)
    \/ \E how \in Pick({"class", "create", "instance", "classlist"}) : AddNew(b, how)
    \/ c[b] # <<>> /\ \E l \in RemL(b) : \E sp \in Pick(Spell) : \E f \in Pick(Form(l)) : Remove(b, l, sp, f)
    \/ \E x \in Pick(1..n) : \E sp \in Pick(Spell) : RemoveAbsent(b, x, sp)
    \/ \E w \in Pick({"addtext", "addtype", "removetext", "removetype"}) : Unknown(b, w)
    \/ Reset(b)
    \/ \E l \in RL : \E sp \in Pick(Spell) : \E f \in Pick(Form(l)) : Assign(b, l, sp, f)
    \/ Object
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------
NoRepetition == \A b \in Boxes : NoRep(c[b])
OrderKept == [][\A b \in Boxes : act'.n # "assign" =>
    \A i, j \in DOMAIN c[b] : (i < j /\ Has(c'[b], c[b][i]) /\ Has(c'[b], c[b][j])) =>
        \E k, m \in DOMAIN c'[b] : k < m /\ c'[b][k] = c[b][i] /\ c'[b][m] = c[b][j]]_vars
OthersUntouched == [][\A b \in Boxes : c'[b] # c[b] => act'.b = b]_vars

Obs == [n |-> n, c |-> c]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
=============================================================================
