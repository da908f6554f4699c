-------------------------------- MODULE Sims --------------------------------
(* What a simulation evolves: an ordered list of evolutions, each of one     *)
(* system.  A system added on its own is evolved by its free evolution.      *)
(* Evolutions are numbered 10 * system (free) and 10 * system + j (protocols *)
(* of the system); 91, 92 are protocols without a system until they are      *)
(* added for one.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, Q, Protos, MaxSys, MaxSweeps, MaxList

VARIABLES nsys,  \* systems 1..nsys exist
          of,    \* protocol -> its system (0: none yet)
          ent,   \* simulation -> sequence of evolutions
          up,    \* system -> the simulation it was added to last (its time grid)
          sw,    \* simulation -> sequence of swept objects (evolutions, or -s for system s)
          act
vars == <<nsys, of, ent, up, sw, act>>
V == <<nsys, of, ent, up, sw>>
Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S

Systems == 1..nsys
Sys(e) == IF e \in Protos THEN of[e] ELSE e \div 10
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Put(s, x) == IF Has(s, x) THEN s ELSE Append(s, x)
In(l, s) == \E i \in 1..Len(l) : Sys(l[i]) = s
Free(s) == 10 * s
AddS(l, s) == IF In(l, s) THEN l ELSE Append(l, Free(s))
RECURSIVE AddAll(_, _)
AddAll(l, ss) == IF ss = <<>> THEN l ELSE AddAll(AddS(l, Head(ss)), Tail(ss))
Lists == UNION {[1..k -> Systems] : k \in 1..MaxList}
RL == IF SIM THEN {[i \in 1..RandomElement(1..MaxList) |-> RandomElement(Systems)]} ELSE Lists
Without(l, X) == SelectSeq(l, LAMBDA x : x \notin X)
(* removing evolutions X removes their sweeps, and those of systems that are then not evolved any more *)
Remaining(l, X) == Without(l, X)
Sweeps(q, X, more) ==
    LET left == Remaining(ent[q], X)
        gone == {Sys(e) : e \in X} \ {Sys(left[i]) : i \in 1..Len(left)}
    IN Without(sw[q], X \cup {-s : s \in gone} \cup more)

Spell == {"ref", "name", "text", "alias"}

Init == /\ nsys = 2 /\ of = [p \in Protos |-> IF p < 90 THEN p \div 10 ELSE 0]
        /\ ent = [q \in Q |-> <<>>] /\ up = [s \in 1..MaxSys |-> 0] /\ sw = [q \in Q |-> <<>>]
        /\ act = [n |-> "init"]

AddSys(q, ss, sp, f) ==
    /\ ent' = [ent EXCEPT ![q] = AddAll(@, ss)]
    /\ up' = [s \in 1..MaxSys |-> IF Has(ss, s) THEN q ELSE up[s]]
    /\ act' = [n |-> "sys", q |-> q, l |-> ss, sp |-> sp, f |-> f, res |-> "ok"]
    /\ UNCHANGED <<nsys, of, sw>>
NewSys(q, how) ==
    /\ nsys < MaxSys /\ nsys' = nsys + 1
    /\ ent' = [ent EXCEPT ![q] = Append(@, Free(nsys + 1))]
    /\ up' = [up EXCEPT ![nsys + 1] = q]
    /\ act' = [n |-> "new", q |-> q, how |-> how, res |-> "ok"]
    /\ UNCHANGED <<of, sw>>
(* a protocol (of a system, or given together with one), optionally in place of another evolution of that simulation *)
AddProto(q, p, s, rem, sp) ==
    LET ok == s = 0 \/ of[p] \in {0, s}
        sy == IF of[p] # 0 THEN of[p] ELSE s
        go == ok /\ sy # 0
    IN
    /\ rem # p
    /\ act' = [n |-> "proto", q |-> q, p |-> p, s |-> s, rem |-> rem, sp |-> sp, res |-> IF go THEN "ok" ELSE "err"]
    /\ IF go THEN /\ of' = [of EXCEPT ![p] = sy]
                  /\ up' = [up EXCEPT ![sy] = q]
                  /\ LET l == Put(ent[q], p) IN
                     /\ ent' = [ent EXCEPT ![q] = Without(l, {rem})]
                     /\ sw' = [sw EXCEPT ![q] = IF ~Has(l, rem) THEN @ ELSE
                                LET left == Without(l, {rem})
                                    rs == IF rem \in Protos THEN of'[rem] ELSE rem \div 10
                                    st == \E i \in 1..Len(left) : (IF left[i] \in Protos THEN of'[left[i]] ELSE left[i] \div 10) = rs
                                IN Without(@, {rem} \cup IF st THEN {} ELSE {-rs})]
       ELSE UNCHANGED <<of, up, ent, sw>>
    /\ UNCHANGED nsys
(* several protocols at once, with a system (or 0) for those that have none *)
AddProtos(q, ps, s) ==
    LET sy(p) == IF of[p] # 0 THEN of[p] ELSE s IN
    /\ s # 0 \/ \A p \in {ps[i] : i \in DOMAIN ps} : of[p] # 0
    /\ of' = [p \in Protos |-> IF p \in {ps[1], ps[2]} THEN sy(p) ELSE of[p]]
    /\ ent' = [ent EXCEPT ![q] = Put(Put(@, ps[1]), ps[2])]
    /\ up' = [x \in 1..MaxSys |-> IF x \in {sy(ps[1]), sy(ps[2])} THEN q ELSE up[x]]
    /\ act' = [n |-> "protos", q |-> q, l |-> ps, s |-> s, res |-> "ok"]
    /\ UNCHANGED <<nsys, sw>>
RemoveProto(q, e, sp) ==
    /\ IF Has(ent[q], e) THEN /\ ent' = [ent EXCEPT ![q] = Without(@, {e})]
                              /\ sw' = [sw EXCEPT ![q] = Sweeps(q, {e}, {})]
       ELSE UNCHANGED <<ent, sw>>
    /\ act' = [n |-> "rmproto", q |-> q, e |-> e, sp |-> sp, res |-> "ok"]
    /\ UNCHANGED <<nsys, of, up>>
RemoveSys(q, s, sp, f) ==
    LET X == {ent[q][i] : i \in {j \in 1..Len(ent[q]) : Sys(ent[q][j]) = s}} IN
    /\ IF X # {} THEN /\ ent' = [ent EXCEPT ![q] = Without(@, X)]
                      /\ sw' = [sw EXCEPT ![q] = Sweeps(q, X, {Free(s)})]
       ELSE UNCHANGED <<ent, sw>>
    /\ act' = [n |-> "rmsys", q |-> q, s |-> s, sp |-> sp, f |-> f, res |-> IF X # {} THEN "ok" ELSE "err"]
    /\ UNCHANGED <<nsys, of, up>>
Reset(q) == /\ ent[q] # <<>> /\ ent' = [ent EXCEPT ![q] = <<>>]
            /\ act' = [n |-> "reset", q |-> q, res |-> "ok"] /\ UNCHANGED <<nsys, of, up, sw>>
Assign(q, ss, sp, f) ==
    /\ ent' = [ent EXCEPT ![q] = AddAll(<<>>, ss)]
    /\ up' = [s \in 1..MaxSys |-> IF Has(ss, s) THEN q ELSE up[s]]
    /\ act' = [n |-> "assign", q |-> q, l |-> ss, sp |-> sp, f |-> f, res |-> "ok"]
    /\ UNCHANGED <<nsys, of, sw>>
Sweep(q, x) ==
    /\ Len(sw[q]) < MaxSweeps
    /\ sw' = [sw EXCEPT ![q] = Append(@, x)]
    /\ act' = [n |-> "sweep", q |-> q, x |-> x, res |-> "ok"]
    /\ UNCHANGED <<nsys, of, ent, up>>
(* reading the evolutions, or running, turns nothing into anything else *)
Use(q) == ent[q] # <<>> /\ act' = [n |-> "use", q |-> q, res |-> "ok"] /\ UNCHANGED <<nsys, of, ent, up, sw>>

Form(l) == IF Len(l) = 1 THEN {"one", "list"} ELSE {"list", "tuple"}
Evs(q) == {ent[q][i] : i \in 1..Len(ent[q])}
Next == \E q \in Pick(Q) :
    \/ \E l \in RL : \E sp \in Pick(Spell) : \E f \in Pick(Form(l)) : AddSys(q, l, sp, f)
    \/ \E how \in Pick({"add", "create", "createQ"}) : NewSys(q, how)
    \/ \E p \in Pick(Protos) : \E s \in Pick({0} \cup Systems) : \E rem \in Pick({0, 0} \cup Evs(q) \cup {Free(1)}) :
         \E sp \in Pick(Spell \cup {"evol"}) : AddProto(q, p, s, rem, sp)
    \/ SIM /\ \E p \in Pick(Protos) : \E r \in Pick(Protos) : \E s \in Pick({0} \cup Systems) : AddProtos(q, <<p, r>>, s)
    \/ \E e \in Pick(Evs(q)) : \E sp \in Pick(Spell \cup {"evol"}) : RemoveProto(q, e, sp)
    \/ \E e \in Pick(Protos) : \E sp \in Pick(Spell) : of[e] # 0 /\ RemoveProto(q, e, sp)
    \/ \E s \in Pick(Systems) : \E sp \in Pick(Spell) : \E f \in Pick({"one", "list"}) : RemoveSys(q, s, sp, f)
    \/ (SIM => RandomElement(1..3) = 1) /\ Reset(q)
    \/ (SIM => RandomElement(1..3) = 1) /\ \E l \in RL : \E sp \in Pick(Spell) : \E f \in Pick(Form(l)) : Assign(q, l, sp, f)
    \/ \E x \in Pick({-s : s \in Systems} \cup {Free(s) : s \in Systems} \cup {p \in Protos : of[p] # 0}) : Sweep(q, x)
    \/ Use(q)
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------
Once == \A q \in Q : \A i, j \in 1..Len(ent[q]) : i # j => ent[q][i] # ent[q][j]
HasSystem == \A q \in Q : \A i \in 1..Len(ent[q]) : Sys(ent[q][i]) # 0
(* what happens to one simulation changes nothing of the other *)
Independent == [][\A q \in Q : act'.q # q => ent'[q] = ent[q] /\ sw'[q] = sw[q]]_vars
OnlyRemoved == [][\A q \in Q : act'.n \in {"rmproto", "rmsys"} =>
                    \A i \in 1..Len(ent[q]) : Has(ent'[q], ent[q][i]) \/ (act'.n = "rmproto" /\ ent[q][i] = act'.e) \/ (act'.n = "rmsys" /\ Sys(ent[q][i]) = act'.s)]_vars

Obs == [nsys |-> nsys, of |-> of, ent |-> ent, sw |-> sw, up |-> up]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
=============================================================================
