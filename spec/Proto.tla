------------------------------- MODULE Proto -------------------------------
(* Protocols: free evolutions (with ratios), rotation gates and nested        *)
(* protocols built from steps, their Hermitian conjugates and repetitions.    *)
(* The unitary of every element is prescribed as a word of elementary         *)
(* factors in time order, as a function of the CURRENT parameters; the real   *)
(* code caches every unitary and every conjugate behind dirty flags.          *)
(*                                                                            *)
(* Elements: 1 = free evolution of the composite S, 2 = free evolution of its *)
(* part A, 3 = rotation gate on A, 4 = rotation gate on A and B,              *)
(* 5.. = protocols.  S has Hamiltonian wA*Jz + wB*n + g*Jx.n                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, NP, MaxSteps, Els, Ws, Gs, Angs, Phs, Ratios, Dts, Smps, Dims, Axes, Impls, Own, MaxUpd, MaxFix, Keys

Prots == 5..(4 + NP)
All == Els \cup Prots
Gates == {3, 4}
Evs == {1, 2}

VARIABLES p,        \* parameters
          steps,    \* steps of every protocol: [x |-> element, hc |-> BOOLEAN, id]
          inP,      \* the protocol an element was first added to (its simulation follows that protocol's), 0 none
          upd,      \* updates of every element
          frozen,   \* <<>> or <<word>>: the unitary a fixed element keeps
          act
vars == <<p, steps, inP, upd, frozen, act>>
V == <<p, steps, inP, upd, frozen>>

(* the values of the random histories *)
WsAll == {-2, -1, 0, 1, 2, 3}
GsAll == {-1, 0, 1, 2}
AngsAll == {-2, -1, 0, 1, 2, 3}
PhsAll == {-1, 1, 2}
RatiosAll == {-2, -1, 0, 1, 2, 3}

Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S
Range(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Reach(_)           \* the elements a protocol is made of
Reach(x) == {x} \cup (IF x \in Prots THEN UNION {Reach(steps[x][i].x) : i \in 1..Len(steps[x])} ELSE {})

(* an element uses its own step size, or that of the protocol its simulation follows, or that of the system *)
RECURSIVE Dt(_, _)
Dt(x, q) == IF q.own[x] # 0 THEN q.own[x] ELSE IF inP[x] # 0 THEN Dt(inP[x], q) ELSE q.dt

Apply1(u, q) ==
    CASE u.key = "wA" -> [q EXCEPT !.wA = u.v]
      [] u.key = "wB" -> [q EXCEPT !.wB = u.v]
      [] u.key = "wAB" -> [q EXCEPT !.wA = u.v, !.wB = u.v]
      [] u.key = "ang3" -> [q EXCEPT !.ang[3] = u.v]
      [] u.key = "ratio1" -> [q EXCEPT !.ratio[1] = u.v]
RECURSIVE Apply(_, _)
Apply(us, q) == IF us = <<>> THEN q ELSE Apply(Tail(us), Apply1(Head(us), q))

Ev(x, q) == [k |-> IF x = 1 THEN "S" ELSE "A", wA |-> q.wA, wB |-> q.wB, g |-> q.g, d |-> q.dB, c |-> 1,
             num |-> Dt(x, q) * q.ratio[x], den |-> q.smp]
(* an instant implementation of a gate ignores the phase *)
Rot(x, q) == [k |-> q.ax[x], on |-> IF x = 3 /\ ~q.both THEN <<1>> ELSE <<1, 2>>,
              a |-> q.ang[x] * (IF x = 3 /\ q.impl = "instant" THEN 1 ELSE q.ph[x]), d |-> q.dB, c |-> 1]
Adj(w) == [i \in 1..Len(w) |-> [w[Len(w) + 1 - i] EXCEPT !.c = -@]]

RECURSIVE Word(_, _)
RECURSIVE Cat(_, _, _)
Cat(ss, i, q) == IF i > Len(ss) THEN <<>>
                 ELSE (IF ss[i].hc THEN Adj(Word(ss[i].x, q)) ELSE Word(ss[i].x, q)) \o Cat(ss, i + 1, q)
Word(x, q) == IF frozen[x] # <<>> THEN frozen[x][1] ELSE
              LET r == Apply(upd[x], q) IN
              IF x \in Evs THEN <<Ev(x, r)>> ELSE IF x \in Gates THEN <<Rot(x, r)>> ELSE Cat(steps[x], 1, r)

--------------------------------------------------------------------------
Init == /\ p = [wA |-> 1, wB |-> 1, g |-> 1, dB |-> 2, dt |-> 2, smp |-> 1, impl |-> "none", both |-> FALSE, own |-> [x \in 1..8 |-> 0],
                ratio |-> [x \in 1..8 |-> 1], ang |-> [x \in 1..8 |-> 1], ph |-> [x \in 1..8 |-> 1], ax |-> [x \in 1..8 |-> "x"]]
        /\ steps = [x \in Prots |-> <<>>]
        /\ inP = [x \in 1..8 |-> 0]
        /\ upd = [x \in 1..8 |-> <<>>]
        /\ frozen = [x \in 1..8 |-> <<>>]
        /\ act = [n |-> "init"]

NoFrozen == \A x \in All : frozen[x] = <<>>

SetSys(key, v) ==
    /\ p[key] # v
    /\ key = "dB" => NoFrozen
    /\ p' = [p EXCEPT ![key] = v]
    /\ act' = [n |-> "set", key |-> key, v |-> v]
    /\ UNCHANGED <<steps, inP, upd, frozen>>

SetEl(key, x, v) ==
    /\ p[key][x] # v
    /\ p' = [p EXCEPT ![key][x] = v]
    /\ act' = [n |-> "el", key |-> key, x |-> x, v |-> v]
    /\ UNCHANGED <<steps, inP, upd, frozen>>

(* the gate 3 implemented by flips, only for two-level systems; the gate 3 acting on a second system as well *)
SetImpl(v) ==
    /\ 3 \in Els /\ p.impl # v /\ (v = "instant" => ~p.both)
    /\ p' = [p EXCEPT !.impl = v]
    /\ act' = [n |-> "impl", v |-> v]
    /\ UNCHANGED <<steps, inP, upd, frozen>>

AddToGate ==
    /\ 3 \in Els /\ ~p.both /\ p.impl = "none"
    /\ p' = [p EXCEPT !.both = TRUE]
    /\ act' = [n |-> "both"]
    /\ UNCHANGED <<steps, inP, upd, frozen>>

(* deleting matrices to save memory changes nothing *)
Del(x) ==
    /\ NoFrozen
    /\ act' = [n |-> "del", x |-> x]
    /\ UNCHANGED V

RECURSIVE Follows(_, _)      \* the simulation of P follows that of x
Follows(P, x) == P = x \/ (inP[P] # 0 /\ Follows(inP[P], x))

(* a step that is in a protocol already is repeated as a copy; the first addition ties the step's time to the protocol *)
Add(P, x, hc) ==
    /\ Len(steps[P]) < MaxSteps /\ P \notin Reach(x)
    /\ x \in Prots => steps[x] # <<>>
    /\ ~Follows(P, x)
    /\ steps' = [steps EXCEPT ![P] = Append(@, [x |-> x, hc |-> hc])]
    /\ IF inP[x] = 0 /\ ~hc
         THEN inP' = [inP EXCEPT ![x] = P] /\ p' = [p EXCEPT !.own[x] = 0]
         ELSE UNCHANGED <<inP, p>>
    /\ act' = [n |-> "add", P |-> P, x |-> x, hc |-> hc]
    /\ UNCHANGED <<upd, frozen>>

Remove(P, i) ==
    /\ Len(steps[P]) > 1
    /\ steps' = [steps EXCEPT ![P] = [k \in 1..(Len(@) - 1) |-> @[IF k < i THEN k ELSE k + 1]]]
    /\ act' = [n |-> "remove", P |-> P, i |-> i]
    /\ UNCHANGED <<p, inP, upd, frozen>>

Reset(P) ==
    /\ steps[P] # <<>>
    /\ steps' = [steps EXCEPT ![P] = <<>>]
    /\ act' = [n |-> "resetsteps", P |-> P]
    /\ UNCHANGED <<p, inP, upd, frozen>>

AddUpd(x, key, v) ==
    /\ Len(upd[x]) < MaxUpd
    /\ upd' = [upd EXCEPT ![x] = Append(@, [key |-> key, v |-> v])]
    /\ act' = [n |-> "update", x |-> x, key |-> key, v |-> v]
    /\ UNCHANGED <<p, steps, inP, frozen>>

(* changing the value of an update *)
ChgUpd(x, i, v) ==
    /\ upd[x][i].v # v
    /\ upd' = [upd EXCEPT ![x][i].v = v]
    /\ act' = [n |-> "updval", x |-> x, i |-> i, v |-> v]
    /\ UNCHANGED <<p, steps, inP, frozen>>

(* an evaluation that fails while updates are in force: nothing of them stays *)
Fail(x) ==
    /\ MaxUpd > 0 /\ Word(x, p) # <<>>
    /\ act' = [n |-> "fail", x |-> x]
    /\ UNCHANGED V

(* fixing an element: it keeps the unitary it has now *)
Fix(x) ==
    /\ Word(x, p) # <<>>
    /\ Cardinality({y \in All : frozen[y] # <<>>}) < MaxFix
    /\ frozen[x] = <<>>
    /\ frozen' = [frozen EXCEPT ![x] = <<Word(x, p)>>]
    /\ act' = [n |-> "fix", x |-> x]
    /\ UNCHANGED <<p, steps, inP, upd>>

Unfix(x) ==
    /\ frozen[x] # <<>>
    /\ frozen' = [frozen EXCEPT ![x] = <<>>]
    /\ act' = [n |-> "unfix", x |-> x]
    /\ UNCHANGED <<p, steps, inP, upd>>

Next ==
    \/ \E v \in Pick(Ws) : SetSys("wA", v)
    \/ \E v \in Pick(Ws) : SetSys("wB", v)
    \/ \E v \in Pick(Gs) : SetSys("g", v)
    \/ \E v \in Pick(Dims) : SetSys("dB", v)
    \/ \E v \in Pick(Dts) : SetSys("dt", v)
    \/ \E v \in Pick(Smps) : SetSys("smp", v)
    \/ \E x \in Pick(Own \cap All) : \E v \in Pick(Dts) : SetEl("own", x, v)
    \/ \E x \in Pick(Evs \cap Els) : \E v \in Pick(Ratios) : SetEl("ratio", x, v)
    \/ \E x \in Pick(Gates \cap Els) : \E v \in Pick(Angs) : SetEl("ang", x, v)
    \/ \E x \in Pick(Gates \cap Els) : \E v \in Pick(Phs) : SetEl("ph", x, v)
    \/ \E x \in Pick(Gates \cap Els) : \E v \in Pick(Axes) : SetEl("ax", x, v)
    \/ \E v \in Pick(Impls) : SetImpl(v)
    \/ /\ "instant" \in Impls /\ AddToGate
    \/ \E x \in Pick({0} \cup All) : Del(x)
    \/ \E P \in Pick(Prots) : \E x \in Pick(All) : \E hc \in Pick(BOOLEAN) : Add(P, x, hc)
    \/ \E P \in Pick(Prots) : \E x \in Pick(Els) : Add(P, x, FALSE)
    \/ \E P \in Pick(Prots) : \E i \in Pick(1..Len(steps[P])) : Remove(P, i)
    \/ \E P \in Pick(Prots) : Reset(P)
    \/ \E x \in Pick(All) : \E key \in Pick(Keys) : \E v \in Pick(Ws) : AddUpd(x, key, v)
    \/ \E x \in Pick(All) : \E i \in Pick(1..Len(upd[x])) : \E v \in Pick(Ws) : ChgUpd(x, i, v)
    \/ \E x \in Pick(All) : Fail(x)
    \/ \E x \in Pick(All) : Fix(x)
    \/ \E x \in Pick(All) : Unfix(x)

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* properties of the design *)
Acyclic == \A P \in Prots : \A i \in 1..Len(steps[P]) : P \notin Reach(steps[P][i].x)
RECURSIVE Count(_)
Count(x) == IF x \notin Prots THEN 1 ELSE
    LET F[i \in 0..Len(steps[x])] == IF i = 0 THEN 0 ELSE F[i - 1] + Count(steps[x][i].x) IN F[Len(steps[x])]
(* a protocol consists of all its steps: without fixed elements every word has as many factors as the tree has leaves *)
Complete == NoFrozen => \A x \in All : Len(Word(x, p)) = Count(x)
AdjTwice == \A x \in All : Adj(Adj(Word(x, p))) = Word(x, p)

Obs == [word |-> [x \in 1..8 |-> IF x \in All THEN Word(x, p) ELSE <<>>],
        vals |-> [wA |-> p.wA, wB |-> p.wB, ratio |-> p.ratio, ang |-> p.ang],
        steps |-> [i \in 1..4 |-> IF i <= NP THEN [k \in 1..Len(steps[4 + i]) |-> <<steps[4 + i][k].x, steps[4 + i][k].hc>>] ELSE <<>>]]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
==============================================================================
