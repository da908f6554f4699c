-------------------------------- MODULE Dict --------------------------------
(* Dictionaries whose keys may be the names of objects: the name object, its *)
(* text and every alias (also those added later) are one and the same key.   *)
(* Other keys behave as in any insertion-ordered dictionary.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, Objs, Plain, Pool, Vals, MaxAls

VARIABLES d,    \* sequence of [k, v]
          als,  \* object -> its aliases
          act
vars == <<d, als, act>>
V == <<d, als>>
Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S

Keys == Objs \cup Plain
At(s, k) == {i \in 1..Len(s) : s[i].k = k}
Has(s, k) == At(s, k) # {}
Pos(s, k) == CHOOSE i \in At(s, k) : TRUE
Put(s, k, v) == IF Has(s, k) THEN [s EXCEPT ![Pos(s, k)].v = v] ELSE Append(s, [k |-> k, v |-> v])
Drop(s, k) == SelectSeq(s, LAMBDA e : e.k # k)
(* how a key can be written: the name object, its text or an alias; entries of objects are made under the name object *)
Spell(k) == IF k \in Plain THEN {"key"} ELSE IF Has(d, k) THEN {"obj", "text"} \cup als[k] ELSE {"obj"}
SpellAny(k) == IF k \in Plain THEN {"key"} ELSE {"obj", "text"} \cup als[k]

Init == d = <<>> /\ als = [o \in Objs |-> {}] /\ act = [n |-> "init"]

A(r) == act' = r
Alias(o, a) == /\ (\A p \in Objs : a \notin als[p])
               /\ Cardinality(als[o]) < MaxAls
               /\ als' = [als EXCEPT ![o] = @ \cup {a}] /\ act' = [n |-> "alias", k |-> o, a |-> a] /\ UNCHANGED d
Set(k, sp, v) == d' = Put(d, k, v) /\ act' = [n |-> "set", k |-> k, sp |-> sp, v |-> v] /\ UNCHANGED als
Del(k, sp) == d' = Drop(d, k) /\ act' = [n |-> "del", k |-> k, sp |-> sp, res |-> IF Has(d, k) THEN "ok" ELSE "err"] /\ UNCHANGED als
(* pop without (v = -1) or with a default *)
Pop(k, sp, v) ==
    /\ d' = Drop(d, k) /\ UNCHANGED als
    /\ A([n |-> "pop", k |-> k, sp |-> sp, v |-> v,
          res |-> IF Has(d, k) THEN ToString(d[Pos(d, k)].v) ELSE IF v = 0 - 1 THEN "err" ELSE ToString(v)])
SetDef(k, sp, v) ==
    /\ d' = IF Has(d, k) THEN d ELSE Put(d, k, v)
    /\ UNCHANGED als
    /\ A([n |-> "setdefault", k |-> k, sp |-> sp, v |-> v, res |-> IF Has(d, k) THEN ToString(d[Pos(d, k)].v) ELSE ToString(v)])
(* two keys at once; the form (mapping, pairs, a dictionary of the same kind) does not matter *)
Update(k, sk, v, l, sl, w) ==
    /\ k # l
    /\ d' = Put(Put(d, k, v), l, w) /\ UNCHANGED als
    /\ A([n |-> "update", k |-> k, sk |-> sk, v |-> v, l |-> l, sl |-> sl, w |-> w])
Copy == act' = [n |-> "copy"] /\ UNCHANGED <<d, als>>
Clear == d # <<>> /\ d' = <<>> /\ act' = [n |-> "clear"] /\ UNCHANGED als

Next ==
    \/ \E o \in Pick(Objs) : \E a \in Pick(Pool) : Alias(o, a)
    \/ \E k \in Pick(Keys) : \E v \in Pick(Vals) : \E sp \in Pick(Spell(k)) : Set(k, sp, v)
    \/ \E k \in Pick(Keys) : \E sp \in Pick(SpellAny(k)) : Del(k, sp)
    \/ \E k \in Pick(Keys) : \E sp \in Pick(SpellAny(k)) : \E v \in Pick({0 - 1, 7}) : Pop(k, sp, v)
    \/ \E k \in Pick(Keys) : \E v \in Pick(Vals) : \E sp \in Pick(Spell(k)) : SetDef(k, sp, v)
    \/ SIM /\ \E k \in Pick(Keys) : \E l \in Pick(Keys) : \E sk \in Pick(Spell(k)) : \E sl \in Pick(Spell(l)) :
         \E v \in Pick(Vals) : \E w \in Pick(Vals) : Update(k, sk, v, l, sl, w)
    \/ Copy \/ Clear

Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------
OneEntry == \A i, j \in 1..Len(d) : d[i].k = d[j].k => i = j
OthersKept == [][\A k \in Keys : (Has(d, k) /\ Has(d', k) /\ d'[Pos(d', k)].v # d[Pos(d, k)].v) =>
                    (act'.n \in {"set", "update"} /\ (act'.k = k \/ (act'.n = "update" /\ act'.l = k)))]_vars

Obs == [d |-> d, als |-> als]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
=============================================================================
