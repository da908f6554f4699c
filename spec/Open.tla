-------------------------------- MODULE Open --------------------------------
(* Open systems.  Dissipators (a jump operator of a part of the composite S,  *)
(* a rate, emission or absorption, a thermal bath) act during the free        *)
(* evolutions of the elements they are attached to; a dissipator of a         *)
(* protocol acts during all its steps, including repeated and nested ones.    *)
(* The map of every element is prescribed as a word of factors in time order: *)
(*   evolution : exp of the Liouvillian with the CURRENT parameters and the   *)
(*               own and the inherited dissipators, each once                 *)
(*   rotation  : rho -> U rho U^+                                             *)
(* An element is open when it has a dissipator or a step that is open, and    *)
(* everything in an open protocol acts on density matrices.                   *)
(*                                                                            *)
(* Elements: 1 = evolution of S used when S is simulated, 2 = evolution of S, *)
(* 3 = rotation of A, 4 = evolution of A, 6, 7 = the evolutions A and B have  *)
(* by themselves, 5, 8.. = protocols.  S = wA*Jz + wB*n + g*Jx.n              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, Prots, MaxSteps, Els, MaxDs, Baths, Ws, Gs, Angs, Ratios, Dts, Dims, Axes, Rates, Temps, OpsA, OpsB, Typs, Runs, Acts

Evs == {1, 2, 4, 6, 7}
All == Els \cup Prots
Steppable == ({2, 3, 4} \cap Els) \cup Prots
Direct == {2, 4} \cup Prots       \* where at most one of them has a given dissipator

VARIABLES p, steps, ds, bath, act
vars == <<p, steps, ds, bath, act>>
V == <<p, steps, ds, bath>>

Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S
Rng(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Reach(_)
Reach(x) == {x} \cup (IF x \in Prots THEN UNION {Reach(steps[x][i].x) : i \in 1..Len(steps[x])} ELSE {})
InSome(x) == \E P \in Prots : \E i \in 1..Len(steps[P]) : steps[P][i].x = x

--------------------------------------------------------------------------
(* what a dissipator contributes: the temperature and frequency are those of its bath *)
Desc(i) == LET b == IF ds[i].bath = 0 THEN [T |-> ds[i].T, cf |-> 1] ELSE bath[ds[i].bath]
           IN [sys |-> ds[i].sys, op |-> ds[i].op, rate |-> ds[i].rate, typ |-> ds[i].typ, T |-> b.T, cf |-> b.cf]
OwnDs(x) == {i \in DOMAIN ds : x \in ds[i].att}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN <<m>> \o SetToSeq(S \ {m})
Descs(S) == LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> Desc(q[i])]

Ev(x, inh) == [k |-> IF x \in {1, 2} THEN "S" ELSE IF x = 7 THEN "B" ELSE "A", wA |-> p.wA, wB |-> p.wB, g |-> p.g, d |-> p.dB, c |-> 1,
               t |-> p.dt * p.ratio[x], ds |-> Descs(OwnDs(x) \cup inh)]
Rot == [k |-> p.ax, a |-> p.ang, d |-> p.dB, c |-> 1]
Adj(w) == [i \in 1..Len(w) |-> [w[Len(w) + 1 - i] EXCEPT !.c = -@]]
RECURSIVE Word(_, _)
RECURSIVE Cat(_, _, _)
Cat(ss, i, inh) == IF i > Len(ss) THEN <<>>
                   ELSE (IF ss[i].hc THEN Adj(Word(ss[i].x, inh)) ELSE Word(ss[i].x, inh)) \o Cat(ss, i + 1, inh)
Word(x, inh) == IF x \in Evs THEN <<Ev(x, inh)>> ELSE IF x = 3 THEN <<Rot>> ELSE Cat(steps[x], 1, inh \cup OwnDs(x))
Open(x) == \E y \in Reach(x) : OwnDs(y) # {}

--------------------------------------------------------------------------
Init == /\ p = [wA |-> 1, wB |-> 1, g |-> 1, dB |-> 2, dt |-> 2, ratio |-> [x \in 1..8 |-> 1], ang |-> 1, ax |-> "x", ini |-> <<0, 1>>]
        /\ steps = [x \in Prots |-> <<>>]
        /\ ds = <<>>
        /\ bath = [b \in 1..Baths |-> [T |-> 0, cf |-> 1]]
        /\ act = [n |-> "init"]

SetP(key, v) ==
    /\ p[key] # v
    /\ p' = [p EXCEPT ![key] = v]
    /\ act' = [n |-> "set", key |-> key, v |-> v]
    /\ UNCHANGED <<steps, ds, bath>>
(* the jump operators of B are given for its dimension, and are given again when it changes *)
SetDim(v) == SetP("dB", v)
SetRatio(x, v) ==
    /\ p.ratio[x] # v
    /\ p' = [p EXCEPT !.ratio[x] = v]
    /\ act' = [n |-> "ratio", x |-> x, v |-> v]
    /\ UNCHANGED <<steps, ds, bath>>
New(sys, op, rate, typ) ==
    /\ Len(ds) < MaxDs
    /\ ds' = Append(ds, [sys |-> sys, op |-> op, rate |-> rate, typ |-> typ, bath |-> 0, T |-> 0, att |-> {IF sys = "A" THEN 6 ELSE 7}])
    /\ act' = [n |-> "new", sys |-> sys, op |-> op, rate |-> rate, typ |-> typ]
    /\ UNCHANGED <<p, steps, bath>>
Attach(i, x) ==
    /\ x \notin ds[i].att /\ (x \in Direct => ds[i].att \cap Direct = {})
    /\ ds' = [ds EXCEPT ![i].att = @ \cup {x}]
    /\ act' = [n |-> "attach", i |-> i, x |-> x]
    /\ UNCHANGED <<p, steps, bath>>
Rate(i, v) ==
    /\ ds[i].rate # v
    /\ ds' = [ds EXCEPT ![i].rate = v]
    /\ act' = [n |-> "rate", i |-> i, v |-> v]
    /\ UNCHANGED <<p, steps, bath>>
Type(i, v) ==
    /\ ds[i].typ # v
    /\ ds' = [ds EXCEPT ![i].typ = v]
    /\ act' = [n |-> "type", i |-> i, v |-> v]
    /\ UNCHANGED <<p, steps, bath>>
Op(i, v) ==
    /\ ds[i].op # v
    /\ ds' = [ds EXCEPT ![i].op = v]
    /\ act' = [n |-> "op", i |-> i, v |-> v]
    /\ UNCHANGED <<p, steps, bath>>
(* a dissipator reaches its bath: one of its own, or the one it joined *)
TempDs(i, v) ==
    /\ IF ds[i].bath = 0 THEN ds' = [ds EXCEPT ![i].T = v] /\ UNCHANGED bath
                         ELSE bath' = [bath EXCEPT ![ds[i].bath].T = v] /\ UNCHANGED ds
    /\ act' = [n |-> "tempds", i |-> i, v |-> v]
    /\ UNCHANGED <<p, steps>>
TempBath(b, v) ==
    /\ bath[b].T # v
    /\ bath' = [bath EXCEPT ![b].T = v]
    /\ act' = [n |-> "temp", b |-> b, v |-> v]
    /\ UNCHANGED <<p, steps, ds>>
CharFreq(b, v) ==
    /\ bath[b].cf # v
    /\ bath' = [bath EXCEPT ![b].cf = v]
    /\ act' = [n |-> "cf", b |-> b, v |-> v]
    /\ UNCHANGED <<p, steps, ds>>
Join(i, b) ==
    /\ ds[i].bath # b
    /\ ds' = [ds EXCEPT ![i].bath = b]
    /\ act' = [n |-> "join", i |-> i, b |-> b]
    /\ UNCHANGED <<p, steps, bath>>
Add(P, x, hc) ==
    /\ Len(steps[P]) < MaxSteps /\ P \notin Reach(x)
    /\ x \in Prots => steps[x] # <<>>
    /\ steps' = [steps EXCEPT ![P] = Append(@, [x |-> x, hc |-> hc])]
    /\ act' = [n |-> "add", P |-> P, x |-> x, hc |-> hc]
    /\ UNCHANGED <<p, ds, bath>>
Remove(P, i) ==
    /\ Len(steps[P]) > 1
    /\ steps' = [steps EXCEPT ![P] = [k \in 1..(Len(@) - 1) |-> @[IF k < i THEN k ELSE k + 1]]]
    /\ act' = [n |-> "remove", P |-> P, i |-> i]
    /\ UNCHANGED <<p, ds, bath>>
Del(x) ==
    /\ act' = [n |-> "del", x |-> x]
    /\ UNCHANGED V
(* n steps of S under its own evolution or a protocol *)
Run(x, n) ==
    /\ Word(x, {}) # <<>>
    /\ act' = [n |-> "run", x |-> x, k |-> n]
    /\ UNCHANGED V

Next ==
    \/ "set" \in Acts /\ \E v \in Pick(Ws) : SetP("wA", v)
    \/ "set" \in Acts /\ \E v \in Pick(Ws) : SetP("wB", v)
    \/ "set" \in Acts /\ \E v \in Pick(Gs) : SetP("g", v)
    \/ "set" \in Acts /\ \E v \in Pick(Dts) : SetP("dt", v)
    \/ "set" \in Acts /\ 3 \in Els /\ \E v \in Pick(Angs) : SetP("ang", v)
    \/ "set" \in Acts /\ 3 \in Els /\ \E v \in Pick(Axes) : SetP("ax", v)
    \/ "run" \in Acts /\ \E v \in Pick({<<i, j>> : i \in 0..1, j \in 0..1}) : SetP("ini", v)
    \/ \E v \in Pick(Dims) : SetDim(v)
    \/ \E x \in Pick(Evs \cap Els) : \E v \in Pick(Ratios) : SetRatio(x, v)
    \/ "new" \in Acts /\ \E o \in Pick(OpsA) : \E r \in Pick(Rates) : \E t \in Pick(Typs) : New("A", o, r, t)
    \/ "new" \in Acts /\ \E o \in Pick(OpsB) : \E r \in Pick(Rates) : \E t \in Pick(Typs) : New("B", o, r, t)
    \/ "attach" \in Acts /\ \E i \in Pick(DOMAIN ds) : \E x \in Pick((Evs \cap Els) \cup Prots) : Attach(i, x)
    \/ "attach" \in Acts /\ \E i \in Pick(DOMAIN ds) : \E x \in Pick(Prots) : Attach(i, x)
    \/ "rate" \in Acts /\ \E i \in Pick(DOMAIN ds) : \E v \in Pick(Rates) : Rate(i, v)
    \/ "type" \in Acts /\ \E i \in Pick(DOMAIN ds) : \E v \in Pick(Typs) : Type(i, v)
    \/ "op" \in Acts /\ \E i \in Pick(DOMAIN ds) : \E v \in Pick(IF ds[i].sys = "A" THEN OpsA ELSE OpsB) : Op(i, v)
    \/ "temp" \in Acts /\ \E i \in Pick(DOMAIN ds) : \E v \in Pick(Temps) : TempDs(i, v)
    \/ "temp" \in Acts /\ \E b \in Pick(1..Baths) : \E v \in Pick(Temps) : TempBath(b, v)
    \/ "temp" \in Acts /\ \E b \in Pick(1..Baths) : \E v \in Pick({1, 2}) : CharFreq(b, v)
    \/ "temp" \in Acts /\ \E i \in Pick(DOMAIN ds) : \E b \in Pick(1..Baths) : Join(i, b)
    \/ "add" \in Acts /\ \E P \in Pick(Prots) : \E x \in Pick(Steppable) : \E hc \in Pick(BOOLEAN) : Add(P, x, hc)
    \/ "add" \in Acts /\ \E P \in Pick(Prots) : \E x \in Pick(Steppable) : Add(P, x, FALSE)
    \/ "remove" \in Acts /\ \E P \in Pick(Prots) : \E i \in Pick(1..Len(steps[P])) : Remove(P, i)
    \/ "del" \in Acts /\ \E x \in Pick({0} \cup All) : Del(x)
    \/ "run" \in Acts /\ \E x \in Pick(({1} \cup Prots) \cap All) : \E n \in Pick(Runs) : Run(x, n)

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* properties of the design *)
Acyclic == \A P \in Prots : \A i \in 1..Len(steps[P]) : P \notin Reach(steps[P][i].x)
(* openness spreads upwards *)
Spreads == \A P \in Prots : \A i \in 1..Len(steps[P]) : Open(steps[P][i].x) => Open(P)
(* every dissipator of a protocol acts in every evolution inside it, and nothing acts that is not attached *)
AllIn(w, S) == \A i \in 1..Len(w) : "ds" \in DOMAIN w[i] => \A j \in S : Desc(j) \in Rng(w[i].ds)
Inherits == \A P \in Prots : AllIn(Word(P, {}), OwnDs(P))
Nothing == \A x \in All : (\A y \in Reach(x) : OwnDs(y) = {}) => \A i \in 1..Len(Word(x, {})) : "ds" \in DOMAIN Word(x, {})[i] => Word(x, {})[i].ds = <<>>
(* a change of one dissipator leaves the elements alone that do not contain one it is attached to *)
Local == [][(act'.n \in {"rate", "type", "op", "attach"}) =>
               \A x \in All : (Reach(x) \cap ds'[act'.i].att = {}) => Word(x, {})' = Word(x, {})]_vars

Obs == [word |-> [x \in 1..8 |-> IF x \in All THEN Word(x, {}) ELSE <<>>],
        open |-> [x \in 1..8 |-> x \in All /\ Open(x)],
        ds |-> [i \in DOMAIN ds |-> Desc(i)],
        ini |-> p.ini, d |-> p.dB,
        steps |-> [x \in 1..8 |-> IF x \in Prots THEN [k \in 1..Len(steps[x]) |-> <<steps[x][k].x, steps[x][k].hc>>] ELSE <<>>]]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
EmitS == PrintT("STEP " \o ToJson([l |-> TLCGet("level"), a |-> act, s |-> V, o |-> Obs]))
=============================================================================
