-------------------------------- MODULE Run ---------------------------------
(* Running simulations: sweeps and their grid, time evolution of protocols,  *)
(* user callbacks, stored results and states, time dependence, serial and    *)
(* parallel runs, histories of runs and changes of settings.                 *)
(*                                                                           *)
(* A run is a little machine of its own: for every point of the sweep grid   *)
(*   set the swept parameters, start every protocol from its initial state,  *)
(*   call the pre-functions, call the compute functions for time 0, then     *)
(*   N times: evolve every protocol by one step and call the compute         *)
(*   functions, then call the post-functions;                                *)
(* and at the end all that was recorded is arranged in the shape of the grid.*)
(*                                                                           *)
(* Objects: 0 = the simulation that runs, 1 = free evolution of A,           *)
(* 2 = protocol P of A (free evolution sampled s1 times, X gate, evolution), *)
(* 3 = free evolution of B, 11 = system A, 12 = system B                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM,        \* random behaviours (TRUE) or the complete graph (FALSE)
          Vars,       \* the variants of protocol P
          Homes,      \* which simulations are run: "Q" an explicit one, "A" the one that belongs to A
          Acts,       \* the kinds of settings that change
          Tgts,       \* what is swept
          MaxSweeps, MaxLen, MaxCost, Pools,
          Ramp,       \* lists of swept values are 1, 2, ... only
          OneRun,     \* stop after one run
          CbObjs,     \* the objects whose callbacks are changed
          Start0      \* how much is set up initially: "bare" or "full"

None == -1000
VarsAll == [last : {"evo", "same", "back"}, ghc : BOOLEAN]
VarsEvo == {[last |-> "evo", ghc |-> FALSE]}
VARIABLES home,   \* the simulation that is run
          pros,   \* the protocols in it, in order
          par,    \* the current values of the parameters
          own,    \* values that were set on protocols themselves
          cb,     \* which callbacks are set: object -> subset of {"pre", "com", "post"}
          sweeps, \* sequence of [tgt, vals, comb]
          tdf,    \* the frequency of a system is given by a function of time: tdf[s] + t (None: it is not)
          tdx,    \* two more terms of system 12 whose frequencies are functions of time, i * t + tdx[i] (None: the term is 0)
          var,    \* protocol P: its last step, and whether the conjugate of the gate is used
          tds,    \* values of the frequency of B, one per step (<<>>: none)
          mem,    \* a parallel run makes later default runs parallel, with this number of processes
          run,    \* the run in progress
          res,    \* what has been recorded: object -> kind -> sequence (one entry per grid point)
          seen,   \* the grid points visited (history)
          act
vars == <<home, pros, par, own, cb, sweeps, tdf, tdx, var, tds, mem, run, res, seen, act>>
Full == <<home, pros, par, own, cb, sweeps, tdf, tdx, var, tds, mem, run, res, seen>>
V == IF SIM THEN <<act, home, var>> ELSE Full

Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
SeqsUpTo(S, m) == UNION {[1..k -> S] : k \in 1..m}

(* ------------------------------------------------------------ the sweep grid *)
(* the first sweep and every combinatorial sweep span a dimension of the grid, the others go along with the one before *)
Leads(sw, i) == i = 1 \/ sw[i].comb
RECURSIVE DimsFrom(_, _)
DimsFrom(sw, i) == IF i > Len(sw) THEN <<>> ELSE (IF Leads(sw, i) THEN <<Len(sw[i].vals)>> ELSE <<>>) \o DimsFrom(sw, i + 1)
Dims(sw) == DimsFrom(sw, 1)
Points(sw) == Prod(Dims(sw))
DimOf(sw, i) == Cardinality({j \in 1..i : Leads(sw, j)})
Fits(sw) == \A i \in 1..Len(sw) : Len(sw[i].vals) = Dims(sw)[DimOf(sw, i)]
(* the position in the grid of the pt-th point: the first dimension varies slowest *)
Pos(d, pt) == [i \in 1..Len(d) |-> (pt \div Prod(SubSeq(d, i + 1, Len(d)))) % d[i]]
(* what a sweep does to the parameters at position j of its list *)
SetPar(p, t, v) ==
    CASE t = "fAB" -> [p EXCEPT !["fA"] = v, !["fB"] = v]
      [] t = "cust" -> [p EXCEPT !["fA"] = 10 + 2 * v]
      [] OTHER -> [p EXCEPT ![t] = v]
RECURSIVE Swept(_, _, _, _)
Swept(p, sw, pos, i) ==
    IF i > Len(sw) THEN p
    ELSE Swept(SetPar(p, sw[i].tgt, sw[i].vals[pos[DimOf(sw, i)] + 1]), sw, pos, i + 1)

(* ------------------------------------------------------------ states and their evolution *)
(* amplitudes 1 and 2 (normalised), multiplied by exp(-i p / 12), exp(i p / 12) and (-i)^g; flip: the first one sits at index 1 *)
State0(i) == [ini |-> i, flip |-> 0, p |-> 0, g |-> 0]
Free(st, th) == [st EXCEPT !.p = IF st.flip = 0 THEN @ + th ELSE @ - th]
Gate(st, hc) == [st EXCEPT !.flip = 1 - @, !.g = IF hc THEN @ - 1 ELSE @ + 1]
RECURSIVE Times(_, _, _)
Times(st, th, k) == IF k = 0 THEN <<>> ELSE LET n == Free(st, th) IN <<n>> \o Times(n, th, k - 1)
Last(s) == s[Len(s)]

Sys(p) == IF p = 3 THEN 12 ELSE 11
DtOf(p, pr) == IF p = 2 /\ own.pdt # None THEN own.pdt ELSE pr.dt
IniOf(p, pr) == IF p = 2 /\ own.iniP # None THEN own.iniP ELSE IF Sys(p) = 11 THEN pr.iniA ELSE 0
DelOf(p) == IF p = 2 /\ own.delP # None THEN own.delP ELSE own.del
N(pr) == (pr.T \div pr.dt) + 1
(* the states one goes through in one step of protocol p (one, unless a step is sampled more often) *)
Through(p, st, pr, x) ==
    IF p # 2 THEN <<Free(st, 6 * (IF p = 1 THEN pr.fA ELSE pr.fB + x) * pr.dt)>>
    ELSE LET th == 6 * pr.fA * DtOf(2, pr)
             a == Times(st, th \div pr.s1, pr.s1)
             b == Gate(Last(a), var.ghc # (pr.gp = -1))
             c == CASE var.last = "evo" -> <<Free(b, th)>>                     \* another evolution
                    [] var.last = "same" -> Times(b, th \div pr.s1, pr.s1)     \* the first step again
                    [] var.last = "back" -> Times(b, 0 - (th \div pr.s1), pr.s1) \* its conjugate
         IN IF pr.s1 > 1 THEN a \o <<b>> \o c ELSE <<Last(c)>>
Extra(k, dt) == (IF tdx[1] = None THEN par.fx ELSE tdx[1] + k * dt) + (IF tdx[2] = None THEN 0 ELSE tdx[2] + 2 * k * dt)

(* ------------------------------------------------------------ callbacks *)
RECURSIVE SysOrder(_)
SysOrder(ps) == IF ps = <<>> THEN <<>>
                ELSE LET r == SysOrder(SubSeq(ps, 1, Len(ps) - 1)) s == Sys(Last(ps)) IN IF s \in Range(r) THEN r ELSE Append(r, s)
Order == <<0>> \o pros \o SysOrder(pros)
Todo(kind) == SelectSeq(Order, LAMBDA o : kind \in cb[o])
(* what a compute function is given *)
Given(o, cur) == IF o = 0 THEN [i \in 1..Len(pros) |-> cur[pros[i]]]
                 ELSE IF o < 10 THEN <<cur[o]>>
                 ELSE <<cur[pros[CHOOSE i \in 1..Len(pros) : Sys(pros[i]) = o /\ \A j \in 1..(i - 1) : Sys(pros[j]) # o]]>>
Current(cur) == [i \in 1..Len(pros) |-> cur[pros[i]]]
(* before the first step the values of time-dependent parameters are not determined by the run *)
Timed(s) == tdf[s] # None /\ s \in {Sys(q) : q \in Range(pros)}
Mask(pr, k) == <<IF Timed(11) /\ k = 0 THEN None ELSE pr.fA,
                 IF (tds # <<>> \/ Timed(12)) /\ k = 0 THEN None ELSE pr.fB, pr.T, pr.dt, pr.s1, pr.aux, IF tdx[1] # None THEN None ELSE pr.fx, pr.gp, pr.auxo>>

(* ------------------------------------------------------------ recorded data *)
Objs == {0, 1, 2, 3, 11, 12}
Idle == [pc |-> "idle"]
Empty == [o \in Objs |-> [pre |-> <<>>, com |-> <<>>, post |-> <<>>, avg |-> <<>>, st |-> <<>>]]
(* a recorded value *)
Tok(o, kind, k, pr, cur) == [f |-> Mask(pr, k), s |-> IF kind = "com" THEN Given(o, cur) ELSE <<>>]
(* arrange a flat sequence in the shape d; lists with a single element appear without the list, if there is a grid at all *)
Unwrap(x) == IF Len(x) = 1 THEN x[1] ELSE x
RECURSIVE Shape(_, _)
Shape(s, d) ==
    IF Len(d) = 1 THEN s
    ELSE LET w == Prod(Tail(d)) IN [i \in 1..d[1] |-> Shape(SubSeq(s, (i - 1) * w + 1, i * w), Tail(d))]
Arranged(s, d, scalar) ==
    IF s = <<>> THEN <<>>
    ELSE IF d = <<>> THEN s[1]
    ELSE Shape([i \in 1..Len(s) |-> IF scalar THEN s[i] ELSE Unwrap(s[i])], d)

(* ------------------------------------------------------------ initial settings *)
NoCb == [o \in Objs |-> {}]
Init ==
    /\ home \in Homes /\ var \in Vars
    /\ pros = IF Start0 # "full" THEN <<1>> ELSE IF home = "Q" THEN <<1, 2, 3>> ELSE <<1, 2>>
    /\ par = [fA |-> 1, fB |-> 2, T |-> CASE Start0 = "bare" -> 2 [] Start0 = "ready" -> 1 [] OTHER -> 4, dt |-> 2, s1 |-> 1, iniA |-> 0, aux |-> 0, fx |-> 0, gp |-> 1, auxo |-> 0]
    /\ own = [pdt |-> None, iniP |-> None, del |-> 0, delP |-> None]
    /\ cb = IF Start0 = "bare" THEN [NoCb EXCEPT ![0] = {"com", "post"}]
            ELSE IF Start0 = "ready" THEN [NoCb EXCEPT ![0] = {"com"}] ELSE [o \in Objs |-> {"pre", "com", "post"}]
    /\ sweeps = <<>> /\ tdf = [s \in {11, 12} |-> None] /\ tdx = <<None, None>> /\ tds = <<>> /\ mem = None
    /\ run = Idle /\ res = Empty /\ seen = <<>>
    /\ act = [n |-> "init"]

(* ------------------------------------------------------------ changing settings between runs *)
ValsOf(t) == CASE t \in {"fA", "fB", "fAB"} -> {0, 1, 2, 3} [] t = "cust" -> {1, 2} [] t = "T" -> {1, 2, 4, 5} [] t = "dt" -> {2, 3}
               [] t = "s1" -> {1, 2, 3} [] t = "iniA" -> {0, 1} [] t \in {"aux", "auxo", "fx"} -> {0, 1, 2, 3} [] t = "gp" -> {1, -1}
Cost(sw) == Points(sw)
K(s) == s \in Acts /\ run.pc = "idle" /\ (OneRun => seen = <<>>)
Lists(t, l) == IF Ramp THEN {[i \in 1..l |-> i]} ELSE [1..l -> ValsOf(t)]
Same == UNCHANGED <<home, var, mem, run, res, seen>>

Param(t, v) == /\ par' = SetPar(par, t, v) /\ act' = [n |-> "set", t |-> t, v |-> v]
               /\ UNCHANGED <<pros, own, cb, sweeps, tdf, tdx, tds>> /\ Same
Own(k, v) == /\ own' = [own EXCEPT ![k] = v] /\ act' = [n |-> "own", t |-> k, v |-> v]
             /\ UNCHANGED <<pros, par, cb, sweeps, tdf, tdx, tds>> /\ Same
Callback(o, k) == /\ cb' = [cb EXCEPT ![o] = IF k \in @ THEN @ \ {k} ELSE @ \cup {k}]
                  /\ act' = [n |-> "cb", o |-> o, k |-> k, on |-> k \notin cb[o]]
                  /\ UNCHANGED <<pros, par, own, sweeps, tdf, tdx, tds>> /\ Same
AddSweep(t, vs, c) ==
    LET sw == Append(sweeps, [tgt |-> t, vals |-> vs, comb |-> c]) IN
    /\ Len(sw) <= MaxSweeps /\ Fits(sw) /\ Cost(sw) <= MaxCost
    /\ sweeps' = sw /\ act' = [n |-> "addsweep", t |-> t, v |-> vs, c |-> c]
    /\ UNCHANGED <<pros, par, own, cb, tdf, tdx, tds>> /\ Same
EditSweep(i, vs) ==
    LET sw == [sweeps EXCEPT ![i].vals = vs] IN
    /\ Fits(sw) /\ Cost(sw) <= MaxCost
    /\ sweeps' = sw /\ act' = [n |-> "editsweep", i |-> i, v |-> vs]
    /\ UNCHANGED <<pros, par, own, cb, tdf, tdx, tds>> /\ Same
CombSweep(i) ==
    LET sw == [sweeps EXCEPT ![i].comb = ~@] IN
    /\ Fits(sw) /\ Cost(sw) <= MaxCost
    /\ sweeps' = sw /\ act' = [n |-> "combsweep", i |-> i, c |-> sw[i].comb]
    /\ UNCHANGED <<pros, par, own, cb, tdf, tdx, tds>> /\ Same
DropSweep(i) ==
    LET sw == SubSeq(sweeps, 1, i - 1) \o SubSeq(sweeps, i + 1, Len(sweeps)) IN
    /\ Fits(sw) /\ Cost(sw) <= MaxCost
    /\ sweeps' = sw /\ act' = [n |-> "dropsweep", i |-> i]
    /\ UNCHANGED <<pros, par, own, cb, tdf, tdx, tds>> /\ Same
(* the sweep also sweeps the other system *)
JoinSweep(i) ==
    /\ sweeps[i].tgt \in {"fA", "fB"} /\ "fAB" \in Tgts
    /\ sweeps' = [sweeps EXCEPT ![i].tgt = "fAB"] /\ act' = [n |-> "joinsweep", i |-> i, t |-> IF sweeps[i].tgt = "fA" THEN "fB" ELSE "fA"]
    /\ UNCHANGED <<pros, par, own, cb, tdf, tdx, tds>> /\ Same
(* a system leaves all the sweeps (and, all, the sweep in time); a sweep of both systems goes on with the other one *)
SweptSys(t) == CASE t \in {"fA", "cust", "iniA", "aux"} -> {11} [] t = "fB" -> {12} [] t = "fAB" -> {11, 12} [] OTHER -> {}
RECURSIVE Leave(_, _)
Leave(sw, s) == IF sw = <<>> THEN <<>>
                ELSE LET h == Head(sw) r == Leave(Tail(sw), s) IN
                     IF s \notin SweptSys(h.tgt) THEN <<h>> \o r
                     ELSE IF h.tgt = "fAB" THEN <<[h EXCEPT !.tgt = IF s = 11 THEN "fB" ELSE "fA"]>> \o r ELSE r
DropSystem(s, all) ==
    LET sw == Leave(sweeps, s) IN
    /\ Fits(sw) /\ Cost(sw) <= MaxCost /\ (sw # sweeps \/ (all /\ s = 12 /\ tds # <<>>))
    /\ sweeps' = sw /\ tds' = IF all /\ s = 12 THEN <<>> ELSE tds
    /\ act' = [n |-> "dropsys", s |-> s, all |-> all]
    /\ UNCHANGED <<pros, par, own, cb, tdf, tdx>> /\ Same
AddPro(p) == /\ p \notin Range(pros) /\ (home = "A" => p # 3)
             /\ pros' = Append(pros, p) /\ act' = [n |-> "addpro", p |-> p]
             /\ UNCHANGED <<par, own, cb, sweeps, tdf, tdx, tds>> /\ Same
(* a function of time for the frequency of a system *)
TimeFun(s, c) == /\ tdf[s] # c /\ tdf' = [tdf EXCEPT ![s] = c] /\ act' = [n |-> "tdf", s |-> s, v |-> c]
              /\ UNCHANGED <<pros, par, own, cb, sweeps, tdx, tds>> /\ Same
(* a list of values of the frequency of B, one for each step *)
TimeSweep(vs) == /\ tds' = vs /\ act' = [n |-> "tds", v |-> vs]
                 /\ UNCHANGED <<pros, par, own, cb, sweeps, tdf, tdx>> /\ Same
(* more terms of system 12 (of the composite it belongs to) that depend on time *)
ExtraFun(i, c) == /\ tdx[i] # c /\ tdx' = [tdx EXCEPT ![i] = c] /\ act' = [n |-> "tdx", i |-> i, v |-> c, fx |-> IF i = 1 THEN par.fx ELSE 0]
                  /\ UNCHANGED <<pros, par, own, cb, sweeps, tdf, tds>> /\ Same

(* ------------------------------------------------------------ a run *)
MaxN == 8
RECURSIVE CostFrom(_)
CostFrom(pt) == IF pt = Points(sweeps) THEN 0
                ELSE LET pr == Swept(par, sweeps, Pos(Dims(sweeps), pt), 1) IN N(pr) + 1 + CostFrom(pt + 1)
Start(mode, c) ==
    LET procs == CASE mode = "serial" -> 0 [] mode = "pool" -> c [] OTHER -> IF mem = None THEN 0 ELSE mem IN
    /\ run.pc = "idle" /\ (OneRun => seen = <<>>)
    /\ CostFrom(0) <= 4 * MaxCost
    /\ run' = [pc |-> "point", pt |-> 0, procs |-> procs, saved |-> par, k |-> 0, todo |-> <<>>,
               cur |-> [p \in 1..3 |-> State0(0)], smp |-> <<>>, buf |-> Empty]
    /\ res' = Empty /\ seen' = <<>>
    /\ mem' = IF procs > 0 THEN procs ELSE mem
    /\ act' = [n |-> "run", mode |-> mode, c |-> c]
    /\ UNCHANGED <<home, var, pros, par, own, cb, sweeps, tdf, tdx, tds>>

Cfg == UNCHANGED <<home, var, pros, own, cb, sweeps, tdf, tdx, tds, mem>>
(* in a parallel run every point starts from the settings at the start of the run *)
Point ==
    LET d == Dims(sweeps)
        pr == Swept(IF run.procs > 0 THEN run.saved ELSE par, sweeps, Pos(d, run.pt), 1) IN
    /\ run.pc = "point"
    /\ par' = pr
    /\ run' = [run EXCEPT !.pc = "pre", !.k = 0, !.todo = Todo("pre"), !.cur = [p \in 1..3 |-> State0(IniOf(p, pr))],
                          !.smp = <<>>, !.buf = Empty]
    /\ seen' = Append(seen, Pos(d, run.pt))
    /\ act' = [n |-> "point"] /\ UNCHANGED res /\ Cfg

(* one callback *)
Kind == IF run.pc = "compute" THEN "com" ELSE run.pc
Call ==
    LET o == Head(run.todo) t == Tok(o, Kind, run.k, par, run.cur) IN
    /\ run.pc \in {"pre", "compute", "post"} /\ run.todo # <<>>
    /\ run' = [run EXCEPT !.todo = Tail(@), !.buf[o][Kind] = Append(@, t),
                          !.buf[o]["avg"] = IF Kind = "com" THEN Append(@, run.k) ELSE @]
    /\ act' = [n |-> "call", o |-> o, k |-> Kind, at |-> run.k]
    /\ UNCHANGED <<par, res, seen>> /\ Cfg

(* the compute functions of a moment; the states of that moment are stored *)
Moment ==
    /\ run.pc \in {"pre", "evolved"} /\ run.todo = <<>>
    /\ run' = [run EXCEPT !.pc = "compute", !.todo = Todo("com"),
                          !.buf = [o \in Objs |-> IF o \in Range(pros) /\ DelOf(o) = 0
                                                  THEN [@[o] EXCEPT !["st"] = Append(@, run.cur[o])] ELSE @[o]]]
    /\ act' = [n |-> "moment"]
    /\ UNCHANGED <<par, res, seen>> /\ Cfg

Evolve ==
    LET k == run.k + 1
        p1 == IF tds = <<>> THEN par ELSE [par EXCEPT !["fB"] = tds[k]]
        p2 == IF Timed(11) THEN [p1 EXCEPT !["fA"] = tdf[11] + k * par.dt] ELSE p1
        pr == IF Timed(12) THEN [p2 EXCEPT !["fB"] = tdf[12] + k * par.dt] ELSE p2
        th == [p \in 1..3 |-> Through(p, run.cur[p], pr, Extra(k, par.dt))] IN
    /\ run.pc = "compute" /\ run.todo = <<>> /\ run.k < N(par)
    /\ par' = pr
    /\ run' = [run EXCEPT !.pc = "evolved", !.k = k, !.cur = [p \in 1..3 |-> IF p \in Range(pros) THEN Last(th[p]) ELSE @[p]],
                          !.smp = IF 2 \in Range(pros) /\ pr.s1 > 1 THEN th[2] ELSE <<>>]
    /\ act' = [n |-> "evolve"]
    /\ UNCHANGED <<res, seen>> /\ Cfg

Posts ==
    /\ run.pc = "compute" /\ run.todo = <<>> /\ run.k = N(par)
    /\ run' = [run EXCEPT !.pc = "post", !.todo = Todo("post")]
    /\ act' = [n |-> "posts"]
    /\ UNCHANGED <<par, res, seen>> /\ Cfg

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* a point is finished: what was recorded becomes one entry of each list *)
Done ==
    /\ run.pc = "post" /\ run.todo = <<>>
    /\ res' = [o \in Objs |-> [k \in {"pre", "com", "post", "avg", "st"} |->
                 IF run.buf[o][k] = <<>> THEN res[o][k]
                 ELSE Append(res[o][k], IF k = "avg" THEN [sum |-> Sum(run.buf[o][k]), n |-> Len(run.buf[o][k])] ELSE run.buf[o][k])]]
    /\ run' = [run EXCEPT !.pc = IF run.pt + 1 = Points(sweeps) THEN "finish" ELSE "point", !.pt = @ + 1]
    /\ act' = [n |-> "done"]
    /\ UNCHANGED <<par, seen>> /\ Cfg

Finish ==
    /\ run.pc = "finish"
    /\ run' = Idle
    /\ par' = IF run.procs > 0 THEN run.saved ELSE par
    /\ act' = [n |-> "finish", par |-> run.procs]
    /\ UNCHANGED <<res, seen>> /\ Cfg

Next ==
    \/ \E t \in Pick({"fA", "fB", "T", "dt", "s1", "iniA", "aux", "fx", "gp", "auxo"}) : K("set") /\ \E v \in Pick(ValsOf(t)) : Param(t, v)
    \/ \E k \in Pick({"pdt", "iniP", "del", "delP"}) : K("own") /\ \E v \in Pick(IF k = "pdt" THEN {1, 3} ELSE {0, 1}) : Own(k, v)
    \/ \E o \in Pick(CbObjs) : K("cb") /\ \E k \in Pick({"pre", "com", "post"}) : Callback(o, k)
    \/ \E t \in Pick(Tgts) : K("sweep") /\ \E l \in Pick(1..MaxLen) : \E vs \in Pick(Lists(t, l)) : \E c \in Pick({TRUE, FALSE}) : AddSweep(t, vs, c)
    \/ \E i \in Pick(1..Len(sweeps)) : K("edit") /\ \E l \in Pick(1..MaxLen) : \E vs \in Pick(Lists(sweeps[i].tgt, l)) : EditSweep(i, vs)
    \/ \E i \in Pick(1..Len(sweeps)) : K("edit") /\ CombSweep(i)
    \/ \E i \in Pick(1..Len(sweeps)) : K("edit") /\ DropSweep(i)
    \/ \E i \in Pick(1..Len(sweeps)) : K("edit") /\ JoinSweep(i)
    \/ \E s \in Pick({11, 12}) : K("edit") /\ \E all \in Pick({TRUE, FALSE}) : DropSystem(s, all)
    \/ \E p \in Pick({1, 2, 3} \ Range(pros)) : K("pro") /\ AddPro(p)
    \/ \E c \in Pick({None, 1, 2}) : K("tdf") /\ \E s \in Pick({11, 12}) : TimeFun(s, c)
    \/ \E c \in Pick({None, 0, 1}) : K("tdx") /\ \E i \in Pick({1, 2}) : ExtraFun(i, c)
    \/ \E vs \in Pick({<<>>, [i \in 1..MaxN |-> 1 + (i % 3)], [i \in 1..MaxN |-> i], [i \in 1..MaxN |-> 9 - i]}) : K("tds") /\ vs # tds /\ TimeSweep(vs)
    \/ run.pc = "idle" /\ Start("serial", 0)
    \/ run.pc = "idle" /\ Start("default", 0)
    \/ \E c \in Pick(Pools) : run.pc = "idle" /\ Start("pool", c)
    \/ Point \/ Call \/ Moment \/ Evolve \/ Posts \/ Done \/ Finish

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* properties of the design *)
Finished == run.pc = "finish"
(* every combination of values of the dimensions is visited exactly once, the first dimension slowest *)
RECURSIVE Lex(_)
Lex(d) == IF d = <<>> THEN <<<<>>>>
          ELSE LET r == Lex(Tail(d)) m == Len(r) IN [i \in 1..(d[1] * m) |-> <<(i - 1) \div m>> \o r[((i - 1) % m) + 1]]
GridOnce == Finished => seen = Lex(Dims(sweeps))
(* at every point each swept parameter has the value of that point, unless a later sweep of the same parameter overrides it *)
AtPoint == run.pc = "pre" => \A i \in 1..Len(sweeps) :
    LET pos == seen[Len(seen)] v == sweeps[i].vals[pos[DimOf(sweeps, i)] + 1] IN
    (sweeps[i].tgt \in DOMAIN par /\ \A j \in (i + 1)..Len(sweeps) : sweeps[j].tgt # sweeps[i].tgt /\ sweeps[j].tgt \notin {"fAB", "cust"})
        => par[sweeps[i].tgt] = v
(* all that is recorded has one entry per point, or none *)
OnePerPoint == Finished => \A o \in Objs : \A k \in {"pre", "com", "post", "avg", "st"} : Len(res[o][k]) \in {0, Points(sweeps)}
(* one state per moment, the first one being the initial state; one compute call per moment *)
Trajectories == Finished => \A o \in Range(pros) :
    /\ DelOf(o) = 0 <=> res[o]["st"] # <<>>
    /\ \A i \in 1..Len(res[o]["st"]) : res[o]["st"][i][1].p = 0 /\ res[o]["st"][i][1].g = 0
    /\ ("com" \in cb[o]) <=> res[o]["com"] # <<>>
(* the order of the callbacks of one moment *)
Ordered == [][act'.n = "call" => \A i \in 1..Len(run.todo) : act'.o = run.todo[1]]_vars
RunFrame == [][run.pc # "idle" => UNCHANGED <<home, var, pros, own, cb, sweeps, tdf, tdx, tds>>]_vars

Obs == CASE act.n = "call" -> [f |-> Mask(par, act.at), t |-> act.at * par.dt, c |-> Current(run.cur), pros |-> pros,
                               g |-> IF act.k = "com" THEN Given(act.o, run.cur) ELSE <<>>,
                               smp |-> IF act.k = "com" THEN run.smp ELSE <<>>]
         [] act.n = "evolve" -> [t |-> run.k * par.dt, on |-> SelectSeq(<<11, 12>>, Timed) \o (IF 3 \in Range(pros) THEN SelectSeq(<<21, 22>>, LAMBDA i : tdx[i - 20] # None) ELSE <<>>)]
         [] act.n = "finish" ->
              [par |-> par, pts |-> Points(sweeps), dims |-> Dims(sweeps), pros |-> pros,
               r |-> [o \in {0, 11, 12} \cup Range(pros) |->
                         [pre |-> Arranged(res[o]["pre"], Dims(sweeps), FALSE), com |-> Arranged(res[o]["com"], Dims(sweeps), FALSE),
                          post |-> Arranged(res[o]["post"], Dims(sweeps), FALSE), avg |-> Arranged(res[o]["avg"], Dims(sweeps), TRUE),
                          st |-> Arranged(res[o]["st"], Dims(sweeps), FALSE)]],
               (* what pre- and post-functions calculate is kept in the order of the points *)
               calc |-> [o \in {0, 11, 12} \cup Range(pros) |->
                         [pre |-> [i \in 1..Len(res[o]["pre"]) |-> res[o]["pre"][i][1]], post |-> [i \in 1..Len(res[o]["post"]) |-> res[o]["post"][i][1]]]]]
         [] OTHER -> [z |-> 0]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> [h |-> home, var |-> var, p |-> pros, T |-> par.T, cb |-> cb]]))
=============================================================================
