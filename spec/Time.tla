-------------------------------- MODULE Time --------------------------------
(* Time grids (total time T, step size dt, step count N), samples, deletion  *)
(* of states and initial states of simulations, and their inheritance along  *)
(* simulation <- system <- protocol <- step.                                 *)
(*                                                                           *)
(* Objects: 1 = simulation Q, 2 = system A, 3 = default evolution of A,      *)
(* 4 = protocol P of A, 5 = evolution of A that may become a step of P,      *)
(* 6 = system B, 7 = protocol of B                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, Objs, Ts, Dts, Ns, Smps, Sts, Grid

None == -1000
VARIABLES own,     \* own[par][o]: the value set on the object itself
          raw,     \* raw[o]: the step count set before the rest was known
          up,      \* the object from which unset parameters are inherited
          act
vars == <<own, raw, up, act>>
V == <<own, raw, up>>

Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S
Default(par) == IF par = "smp" THEN 1 ELSE IF par = "del" THEN 0 ELSE None
RECURSIVE Val(_, _)
Val(par, o) == IF own[par][o] # None THEN own[par][o] ELSE IF up[o] # 0 THEN Val(par, up[o]) ELSE Default(par)
RECURSIVE RawN(_)
RawN(o) == IF raw[o] # None THEN raw[o] ELSE IF up[o] # 0 THEN RawN(up[o]) ELSE None

Known(o) == Val("T", o) # None /\ Val("dt", o) # None
(* the number of steps: the whole steps that fit in T, and one more *)
N(o) == (Val("T", o) \div Val("dt", o)) + 1

Anc(o) == LET RECURSIVE A(_)
              A(x) == IF x = 0 THEN {} ELSE {x} \cup A(up[x])
          IN A(o)
Below(o) == {x \in 1..7 : o \in Anc(x)}

Pars == {"T", "dt", "smp", "del", "ist"}
Init == /\ own = [par \in Pars |-> [o \in 1..7 |-> IF par = "ist" /\ o \in {2, 6} THEN 0 ELSE None]]
        /\ raw = [o \in 1..7 |-> None]
        /\ up = [o \in 1..7 |-> CASE o \in {3, 4, 5} -> 2 [] o = 7 -> 6 [] OTHER -> 0]
        /\ act = [n |-> "init"]

(* setting the total time keeps the step size; if only the step count was known, the step size follows *)
SetT(o, v) ==
    LET n == RawN(o) derive == Val("dt", o) = None /\ n # None IN
    /\ derive => v % n = 0
    /\ own' = [own EXCEPT !["T"][o] = v, !["dt"][o] = IF derive THEN v \div n ELSE @]
    /\ raw' = [raw EXCEPT ![o] = IF Val("dt", o) # None THEN (v \div Val("dt", o)) + 1 ELSE @]
    /\ act' = [n |-> "T", o |-> o, v |-> v]
    /\ UNCHANGED up
(* setting the step size keeps the total time *)
SetDt(o, v) ==
    /\ own' = [own EXCEPT !["dt"][o] = v]
    /\ raw' = [raw EXCEPT ![o] = IF Val("T", o) # None THEN (Val("T", o) \div v) + 1 ELSE @]
    /\ act' = [n |-> "dt", o |-> o, v |-> v]
    /\ UNCHANGED up
(* setting the step count keeps the total time, and makes the step size T / N *)
SetN(o, v) ==
    /\ Val("T", o) # None => Val("T", o) % v = 0
    /\ own' = [own EXCEPT !["dt"][o] = IF Val("T", o) # None THEN Val("T", o) \div v ELSE @]
    /\ raw' = [raw EXCEPT ![o] = v]
    /\ act' = [n |-> "N", o |-> o, v |-> v]
    /\ UNCHANGED up
(* reading the step count when the total time is not known makes the total time N * dt; otherwise nothing changes *)
Read(o) ==
    LET dt == Val("dt", o) n == RawN(o) IN
    /\ IF Known(o) THEN own' = own /\ raw' = [raw EXCEPT ![o] = N(o)]
       ELSE /\ Val("T", o) = None /\ dt # None /\ n # None
            /\ own' = [own EXCEPT !["T"][o] = n * dt]
            /\ raw' = [raw EXCEPT ![o] = n + 1]
    /\ act' = [n |-> "read", o |-> o]
    /\ UNCHANGED up

Set(par, o, v) ==
    /\ own' = [own EXCEPT ![par][o] = v]
    /\ act' = [n |-> par, o |-> o, v |-> v]
    /\ UNCHANGED <<raw, up>>

(* a system added to a simulation (also that of another system or of a protocol) inherits from it what is not *)
(* set on the system, unless that simulation itself follows the system *)
Attach(o, to) ==
    /\ up[o] \in {0, to} \/ o \in Anc(to)
    /\ up' = [up EXCEPT ![o] = IF o \in Anc(to) THEN @ ELSE to]
    /\ act' = [n |-> "attach", o |-> o, to |-> to]
    /\ UNCHANGED <<own, raw>>
(* an evolution that becomes a step of a protocol follows the protocol in everything *)
Step ==
    /\ up[5] = 2
    /\ up' = [up EXCEPT ![5] = 4]
    /\ own' = [par \in Pars |-> [own[par] EXCEPT ![5] = None]]
    /\ raw' = [raw EXCEPT ![5] = None]
    /\ act' = [n |-> "step"]

Next ==
    \/ \E o \in Pick(Objs) : \E v \in Pick(Ts) : SetT(o, v)
    \/ \E o \in Pick(Objs) : \E v \in Pick(Dts) : SetDt(o, v)
    \/ \E o \in Pick(Objs) : \E v \in Pick(Ns) : SetN(o, v)
    \/ \E o \in Pick(Objs) : Read(o)
    \/ \E o \in Pick(Objs) : \E v \in Pick(Smps) : Set("smp", o, v)
    \/ \E o \in Pick(IF Smps = {} THEN {} ELSE Objs) : \E v \in Pick({0, 1}) : Set("del", o, v)
    \/ \E o \in Pick(Objs \ {1}) : \E v \in Pick(Sts) : Set("ist", o, v)
    \/ \E o \in Pick({2, 6} \cap Objs) : 1 \in Objs /\ up[o] = 0 /\ Attach(o, 1)
    \/ SIM /\ \E o \in Pick({2, 6} \cap Objs) : \E to \in Pick({1, 2, 4, 6, 7} \cap Objs) : Attach(o, to)
    \/ 5 \in Objs /\ 4 \in Objs /\ Step

Spec == Init /\ [][Next]_vars
Bounded == \A o \in 1..7 : (own["T"][o] \in Ts \cup {None})

--------------------------------------------------------------------------
(* properties of the design *)
Consistent == \A o \in Objs : Known(o) => Val("dt", o) > 0 /\ (N(o) - 1) * Val("dt", o) <= Val("T", o) /\ Val("T", o) < N(o) * Val("dt", o)
(* assigning to an object changes nothing of objects that do not inherit from it *)
Isolation == [][act'.n \notin {"attach", "step"} =>
                \A x \in Objs \ Below(act'.o) : \A par \in Pars : Val(par, x)' = Val(par, x)]_vars
(* an own value is kept whatever happens to the others *)
Keeps == [][\A x \in Objs : \A par \in {"smp", "del", "ist"} :
              (own[par][x] # None /\ ~(act'.n = "step" /\ x = 5) /\ ~(act'.n = par /\ act'.o = x)) => Val(par, x)' = Val(par, x)]_vars

Obs == [v |-> [o \in 1..7 |-> IF o \notin Objs THEN <<>> ELSE
          <<Val("T", o), Val("dt", o), IF Known(o) THEN N(o) ELSE None, Val("smp", o), Val("del", o), Val("ist", o)>>]]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
==============================================================================
