------------------------------- MODULE State -------------------------------
(* The initial state of nested quantum systems.  Leaves are given a basis    *)
(* state, a superposition or a vector; a list given to a composite system is *)
(* given to its parts; a vector given to a composite system is its own.      *)
(* States are symbolic: a sequence w of integers is the normalised vector    *)
(* whose amplitudes are sgn(w[k]) sqrt(|w[k]|) up to a factor, for which the *)
(* tensor product is the Kronecker product of integers.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, NL, NC, Dims, Idx, Kinds, Extra

VARIABLES dim,   \* leaf -> dimension
          sub,   \* composite -> sequence of its parts
          inp,   \* node -> input in effect
          pin,   \* node -> the input given to a protocol of the node
          act
vars == <<dim, sub, inp, pin, act>>
V == <<dim, sub, inp, pin>>
Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S

Leaves == 1..NL
Comps == (NL+1)..(NL+NC)
Nodes == 1..(NL+NC)
No == [k |-> "no"]
Range(s) == {s[i] : i \in DOMAIN s}
IsLeaf(n) == n \in Leaves
RECURSIVE Below(_)
Below(n) == IF IsLeaf(n) THEN {n} ELSE {n} \union UNION {Below(x) : x \in Range(sub[n])}
In(x) == {c \in Comps : x \in Range(sub[c])}
RECURSIVE Above(_)
Above(n) == {n} \union UNION {Above(c) : c \in In(n)}
RECURSIVE DimSeq(_)
RECURSIVE Dim(_)
Dim(n) == IF IsLeaf(n) THEN dim[n] ELSE DimSeq(sub[n])
DimSeq(s) == IF s = <<>> THEN 1 ELSE Dim(Head(s)) * DimSeq(Tail(s))
Seen(n) == \A m \in Below(n) \intersect Comps : sub[m] # <<>>

(* ---- the value an input stands for -------------------------------------- *)
Ok(v) == [t |-> "ok", v |-> v]
None == [t |-> "none"]
Err == [t |-> "err"]
Kron(a, b) == [k \in 1..(Len(a) * Len(b)) |-> a[((k - 1) \div Len(b)) + 1] * b[((k - 1) % Len(b)) + 1]]
Both(a, b) == IF a.t = "err" \/ b.t = "err" THEN Err ELSE IF a.t = "none" \/ b.t = "none" THEN None ELSE Ok(Kron(a.v, b.v))
(* s is a sequence of <<basis index, weight>>; a later pair with the same index replaces the earlier *)
(* the one-dimensional state has no sign *)
Weights(s, d) == IF \E j \in DOMAIN s : s[j][1] >= d THEN None ELSE IF d = 1 THEN Ok(<<1>>)
                 ELSE Ok([k \in 1..d |-> IF \E j \in DOMAIN s : s[j][1] = k - 1
                                         THEN s[CHOOSE j \in DOMAIN s : s[j][1] = k - 1 /\ \A m \in DOMAIN s : m > j => s[m][1] # k - 1][2]
                                         ELSE 0])
RECURSIVE ValOf(_, _)
RECURSIVE Parts(_, _)
Parts(s, p) == IF s = <<>> THEN Ok(<<1>>) ELSE Both(ValOf(Head(s), Head(p)), Parts(Tail(s), Tail(p)))
ValOf(n, i) ==
    IF i.k = "no" THEN Err
    ELSE IF i.k = "vec" THEN (IF Len(i.v) = Dim(n) THEN Ok(i.v) ELSE Err)
    ELSE IF i.k = "parts" THEN (IF IsLeaf(n) \/ Len(i.p) # Len(sub[n]) THEN Err ELSE Parts(sub[n], i.p))
    ELSE IF IsLeaf(n) THEN Weights(i.s, dim[n]) ELSE Err
RECURSIVE Val(_)
RECURSIVE ValSeq(_)
ValSeq(s) == IF s = <<>> THEN Ok(<<1>>) ELSE Both(Val(Head(s)), ValSeq(Tail(s)))
Val(n) == IF IsLeaf(n) \/ inp[n].k = "vec" THEN ValOf(n, inp[n]) ELSE ValSeq(sub[n])
PVal(n) == IF pin[n].k = "no" THEN Val(n) ELSE ValOf(n, pin[n])

(* ---- inputs that can be given ------------------------------------------- *)
Amp == {1, 4, 0 - 1, 0 - 4}
Pop == 1..3
Vecs(d) == IF SIM THEN {LET j == RandomElement(1..d) IN [k \in 1..d |-> IF k = j THEN RandomElement(Amp) ELSE RandomElement(Amp \union {0})]}
           ELSE {[k \in 1..d |-> IF k = j THEN 1 ELSE 0] : j \in {1, d}} \union {[k \in 1..d |-> IF k = 1 THEN 0 - 4 ELSE 1]}
(* the coefficients given to every second leaf are amplitudes, of the others populations *)
LeafInp(x, d) ==
    (IF "idx" \in Kinds THEN {[k |-> "idx", s |-> <<<<j, 1>>>>] : j \in Pick(Idx)} ELSE {})
    \union (IF "list" \in Kinds THEN {[k |-> "list", s |-> <<<<a, 1>>, <<b, 1>>>>] : a \in Pick(Idx), b \in Pick(Idx)} ELSE {})
    \union (IF "pop" \in Kinds /\ x % 2 = 1 THEN {[k |-> "pop", s |-> <<<<a, w>>, <<b, u>>>>] : a \in Pick(Idx), b \in Pick(Idx), w \in Pick(Pop), u \in Pick(Pop)} ELSE {})
    \union (IF "amp" \in Kinds /\ x % 2 = 0 THEN {[k |-> "amp", s |-> <<<<a, w>>, <<b, u>>>>] : a \in Pick(Idx), b \in Pick(Idx), w \in Pick(Amp), u \in Pick(Amp)} ELSE {})
    \union (IF "vec" \in Kinds THEN {[k |-> "vec", v |-> v] : v \in Vecs(d)} ELSE {})
RECURSIVE Inps(_)
RECURSIVE SeqInps(_)
SeqInps(s) == IF s = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in Pick(Inps(Head(s))), t \in SeqInps(Tail(s))}
RawInp(n) == IF "vec" \in Kinds THEN {[k |-> "vec", v |-> v] : v \in Vecs(Dim(n))} ELSE {}
ListInp(n) == {[k |-> "parts", p |-> p] : p \in SeqInps(sub[n])}
Inps(n) == IF IsLeaf(n) THEN LeafInp(n, dim[n]) ELSE ListInp(n) \union RawInp(n)

RECURSIVE Give(_, _, _)
RECURSIVE GiveAll(_, _, _)
GiveAll(f, s, p) == IF s = <<>> THEN f ELSE GiveAll(Give(f, Head(s), Head(p)), Tail(s), Tail(p))
Give(f, n, i) == IF i.k = "parts" THEN GiveAll([f EXCEPT ![n] = No], sub[n], i.p) ELSE [f EXCEPT ![n] = i]

(* ---- transitions -------------------------------------------------------- *)
Init ==
    /\ dim = [x \in Leaves |-> 2]
    /\ sub = [c \in Comps |-> IF c = NL + 1 THEN <<1, 2>> ELSE <<>>]
    /\ inp = [n \in Nodes |-> No] /\ pin = [n \in Nodes |-> No]
    /\ act = [n |-> "init"]

Set(n, i) ==
    /\ Seen(n) /\ inp' = Give(inp, n, i) /\ UNCHANGED <<dim, sub, pin>>
    /\ act' = [n |-> "set", x |-> n, i |-> i, res |-> "ok"]
Own(n, i) ==
    /\ "own" \in Extra /\ Seen(n) /\ pin' = [pin EXCEPT ![n] = i] /\ UNCHANGED <<dim, sub, inp>>
    /\ act' = [n |-> "own", x |-> n, i |-> i, res |-> "ok"]
Bad(n, how, on) ==
    /\ Seen(n) /\ (on = "protocol" => "own" \in Extra) /\ UNCHANGED <<dim, sub, inp, pin>>
    /\ act' = [n |-> "bad", x |-> n, how |-> how, on |-> on, res |-> "err"]
SetDim(x, d) ==
    /\ d # dim[x] /\ dim' = [dim EXCEPT ![x] = d] /\ UNCHANGED <<sub, inp, pin>>
    /\ act' = [n |-> "setdim", x |-> x, d |-> d, res |-> "ok"]
Free(c) == \A m \in Above(c) : pin[m].k = "no"
Add(c, x) ==
    /\ In(x) = {} /\ c \notin Below(x) /\ Seen(x) /\ Free(c)
    /\ sub' = [sub EXCEPT ![c] = Append(@, x)] /\ UNCHANGED <<dim, inp, pin>>
    /\ act' = [n |-> "add", c |-> c, x |-> x, res |-> "ok"]
Remove(c, x) ==
    /\ x \in Range(sub[c]) /\ Free(c) /\ (Len(sub[c]) > 1 \/ In(c) = {})
    /\ sub' = [sub EXCEPT ![c] = SelectSeq(@, LAMBDA y : y # x)] /\ UNCHANGED <<dim, inp, pin>>
    /\ act' = [n |-> "remove", c |-> c, x |-> x, res |-> "ok"]

BadHow(n) == IF IsLeaf(n) THEN {"text", "vec", "str"} ELSE {"short", "long", "int", "vec", "textin", "vecin"}
Next ==
    \/ \E n \in Pick(Nodes) : Seen(n) /\ \E i \in Pick(Inps(n)) : Set(n, i)
    \/ \E n \in Pick(Leaves) : \E i \in Pick(Inps(n)) : Set(n, i)
    \/ \E n \in Pick(Nodes) : Seen(n) /\ \E i \in Pick(Inps(n)) : Own(n, i)
    \/ \E n \in Pick(Nodes) : \E how \in Pick(BadHow(n)) : \E on \in Pick({"system", "protocol"}) : Bad(n, how, on)
    \/ \E x \in Pick(Leaves), d \in Pick(Dims) : SetDim(x, d)
    \/ \E c \in Pick(Comps), x \in Pick(Nodes) : Add(c, x)
    \/ \E c \in Pick({m \in Comps : sub[m] # <<>>}) : \E x \in Pick(Range(sub[c])) : Remove(c, x)
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------
OneParent == \A x \in Nodes : Cardinality(In(x)) <= 1
Full == \A n \in Nodes : Seen(n) => (Val(n).t = "ok" => Len(Val(n).v) = Dim(n))
(* a list given to a composite system is the tensor product of what it gives to the parts *)
ListIsProduct == [][act'.n = "set" => \A n \in Nodes : n = act'.x => Val(n)' = ValOf(n, act'.i)]_vars
(* a protocol that has its own initial state keeps it *)
OwnKept == [][\A n \in Nodes : pin[n].k # "no" /\ act'.n \in {"set", "bad"} => PVal(n)' = PVal(n)]_vars
(* what is given to a system does not change the states of systems that do not share a part with it *)
OthersKept == [][act'.n = "set" => \A n \in Nodes : Seen(n) /\ Below(n) \intersect Below(act'.x) = {} => Val(n)' = Val(n)]_vars

Obs == [v |-> [n \in Nodes |-> IF Seen(n) THEN Val(n) ELSE [t |-> "skip"]],
        p |-> [n \in Nodes |-> IF Seen(n) /\ pin[n].k # "no" THEN PVal(n) ELSE [t |-> "skip"]],
        d |-> [n \in Nodes |-> IF Seen(n) THEN Dim(n) ELSE 0],
        s |-> [c \in 1..NC |-> sub[NL + c]]]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
=============================================================================
