------------------------------- MODULE Names -------------------------------
(* Names and aliases of objects: every object receives a name that is its    *)
(* class label and running number (a leading underscore for internal ones),  *)
(* the name never changes, aliases may be added as long as they do not       *)
(* already identify another object, and any name or alias finds the object   *)
(* it was given to.  Objects that keep results name those results with every *)
(* name/alias of theirs followed by "Results".                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, Classes, MaxObj, Pool, Keeps   \* Keeps: the classes whose objects keep results

VARIABLES objs, cnt, act
vars == <<objs, cnt, act>>

V == <<objs, cnt>>

(* with SIM, an action takes one random parameter: used for long random histories *)
Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S   \* act: keeps TLC from evaluating it once for all

Range(s) == {s[i] : i \in 1..Len(s)}
Own(o) == {objs[o].name} \cup objs[o].als
Ids == 1..Len(objs)
OwnedBy(a) == {o \in Ids : a \in Own(o)}
FreeFor(a, o) == OwnedBy(a) \subseteq {o}

Digit(n) == ToString(n)
NewName(c, i) == IF i THEN "_" \o c \o Digit(cnt[c][2] + 1) ELSE c \o Digit(cnt[c][1] + 1)
Bump(c, i) == [cnt EXCEPT ![c] = IF i THEN <<@[1], @[2] + 1>> ELSE <<@[1] + 1, @[2]>>]

Init == /\ objs = <<>>
        /\ cnt = [c \in Classes |-> <<0, 0>>]
        /\ act = [n |-> "init"]

Create(c, i, als) ==
    /\ Len(objs) < MaxObj
    /\ \A k \in 1..Len(als) : OwnedBy(als[k]) = {} /\ als[k] # NewName(c, i)
    /\ objs' = Append(objs, [cls |-> c, int |-> i, name |-> NewName(c, i), als |-> Range(als)])
    /\ cnt' = Bump(c, i)
    /\ act' = [n |-> "create", cls |-> c, int |-> i, als |-> als, res |-> "ok"]

(* an alias that identifies another object is refused and nothing changes *)
SetAlias(o, a) ==
    /\ IF FreeFor(a, o)
         THEN objs' = [objs EXCEPT ![o].als = @ \cup {a}] /\ act' = [n |-> "alias", o |-> o, a |-> a, res |-> "ok"]
         ELSE UNCHANGED objs /\ act' = [n |-> "alias", o |-> o, a |-> a, res |-> "err"]
    /\ UNCHANGED cnt

SetAliasList(o, a, b) ==
    /\ a # b
    /\ FreeFor(a, o) => FreeFor(b, o)
    /\ IF FreeFor(a, o)
         THEN objs' = [objs EXCEPT ![o].als = @ \cup {a, b}] /\ act' = [n |-> "aliases", o |-> o, as |-> <<a, b>>, res |-> "ok"]
         ELSE UNCHANGED objs /\ act' = [n |-> "aliases", o |-> o, as |-> <<a, b>>, res |-> "err"]
    /\ UNCHANGED cnt

(* the name of an object cannot be changed *)
Rename(o, a) == /\ act' = [n |-> "rename", o |-> o, a |-> a, res |-> "err"]
                /\ UNCHANGED <<objs, cnt>>

Next == \/ \E c \in Pick(Classes), i \in Pick(BOOLEAN) : Create(c, i, <<>>)
        \/ \E c \in Pick(Classes), a \in Pick(Pool) : Create(c, FALSE, <<a>>)
        \/ \E o \in Pick(Ids) : \E a \in Pick(Pool \cup {objs[k].name : k \in Ids}) : SetAlias(o, a)
        \/ \E o \in Pick(Ids) : \E a \in Pick(Pool) : \E b \in Pick(Pool) : SetAliasList(o, a, b)
        \/ \E o \in Pick(Ids) : Rename(o, "fresh")

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* the properties of the design *)
Strings == Pool \cup {"fresh"} \cup {objs[k].name : k \in Ids}
Lookup(a) == IF OwnedBy(a) = {} THEN 0 ELSE CHOOSE o \in OwnedBy(a) : TRUE

UniqueNames == \A i, j \in Ids : i # j => objs[i].name # objs[j].name
OneOwner    == \A a \in Strings : Cardinality(OwnedBy(a)) <= 1
FoundByAll  == \A o \in Ids : \A a \in Own(o) : Lookup(a) = o
NamesFixed  == [][\A o \in 1..Len(objs) : objs'[o].name = objs[o].name /\ Own(o) \subseteq {objs'[o].name} \cup objs'[o].als]_vars

--------------------------------------------------------------------------
Obs == [names |-> [o \in Ids |-> objs[o].name],
        look  |-> {<<a, Lookup(a)>> : a \in Strings},
        own   |-> [o \in Ids |-> Own(o)],
        results |-> UNION {{<<a \o "Results", o>> : a \in Own(o)} : o \in {k \in Ids : objs[k].cls \in Keeps}}]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
============================================================================
