-------------------------------- MODULE Files -------------------------------
(* Saving data and reading them back.  A file holds rows of values.  Plain   *)
(* data are saved as one file; the results of objects are saved as one file  *)
(* per object, key and leading indices (all but the last two levels of the   *)
(* nesting).  What is read is what was saved last, whatever else was saved.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SIM, Names, Objs, Keys, Vals, MaxLen, MaxGrid, Sides, Kinds

VARIABLES files,   \* set of [o, k, ix, rows, kind]: o = "" for plain data
          res,     \* the results of the objects: sequence of [o, k, grid, t, base, kind], one for each object and key
          act
vars == <<files, res, act>>
V == <<files, res>>
Pick(S) == IF SIM /\ act.n # "" /\ S # {} THEN {RandomElement(S)} ELSE S

Id(f) == <<f.o, f.k, f.ix>>
Write(new) == {f \in files : \A g \in new : Id(g) # Id(f)} \cup new

NV == Cardinality(Vals)
Shapes == {sh \in UNION {[1..n -> 0..MaxLen] : n \in 1..MaxLen} : sh[1] > 0}
(* the rows of a shape, filled with the values b, b + c, b + 2 c, ... *)
RECURSIVE Before(_, _)
Before(sh, i) == IF i = 1 THEN 0 ELSE sh[i - 1] + Before(sh, i - 1)
Fill(sh, b, c) == [i \in DOMAIN sh |-> [j \in 1..sh[i] |-> (b + c * (Before(sh, i) + j - 1)) % NV]]

Save(n, rows, flat, kind, form) ==
    /\ files' = Write({[o |-> "", k |-> n, ix |-> <<>>, rows |-> rows, kind |-> kind]})
    /\ act' = [n |-> "save", k |-> n, rows |-> rows, flat |-> flat, kind |-> kind, form |-> form]
    /\ UNCHANGED res
(* with the time as the name, and read at once *)
Stamp(rows, kind) == act' = [n |-> "stamp", rows |-> rows, flat |-> FALSE, kind |-> kind, form |-> "list"] /\ UNCHANGED <<files, res>>

(* what a run leaves: for every recorded key of every object a table over the grid and the times *)
Run(rs) == res' = rs /\ act' = [n |-> "run", res |-> rs] /\ UNCHANGED files
Size(g) == IF Len(g) = 0 THEN 1 ELSE IF Len(g) = 1 THEN g[1] ELSE IF Len(g) = 2 THEN g[1] * g[2] ELSE g[1] * g[2] * g[3]
(* all levels of the nesting: the grid, and the times unless there is a grid and only one time *)
Levels(r) == IF r.t = 1 /\ Len(r.grid) > 0 THEN r.grid ELSE Append(r.grid, r.t)
Flat(r, i) == (r.base + i) % NV                        \* the i-th value of the whole table
FilesOf(r) ==
    LET L == Levels(r)  n == Len(L) IN
    CASE n = 1 -> {[o |-> r.o, k |-> r.k, ix |-> <<>>, rows |-> <<[j \in 1..L[1] |-> Flat(r, j - 1)]>>, kind |-> r.kind]}
      [] n = 2 -> {[o |-> r.o, k |-> r.k, ix |-> <<>>, kind |-> r.kind,
                    rows |-> [i \in 1..L[1] |-> [j \in 1..L[2] |-> Flat(r, (i - 1) * L[2] + j - 1)]]]}
      [] n = 3 -> {[o |-> r.o, k |-> r.k, ix |-> <<a>>, kind |-> r.kind,
                    rows |-> [i \in 1..L[2] |-> [j \in 1..L[3] |-> Flat(r, (a * L[2] + i - 1) * L[3] + j - 1)]]] : a \in 0..(L[1] - 1)}
      [] OTHER -> {[o |-> r.o, k |-> r.k, ix |-> <<ab[1], ab[2]>>, kind |-> r.kind,
                    rows |-> [i \in 1..L[3] |-> [j \in 1..L[4] |-> Flat(r, ((ab[1] * L[2] + ab[2]) * L[3] + i - 1) * L[4] + j - 1)]]]
                   : ab \in (0..(L[1] - 1)) \X (0..(L[2] - 1))}
SaveRes ==
    /\ files' = Write(UNION {FilesOf(res[i]) : i \in DOMAIN res})
    /\ act' = [n |-> "saveres"] /\ UNCHANGED res
(* a file that does not exist cannot be read *)
Missing(n) == (\A f \in files : ~(f.o = "" /\ f.k = n)) /\ act' = [n |-> "missing", k |-> n] /\ UNCHANGED <<files, res>>

Grids == IF SIM THEN UNION {[1..n -> Sides] : n \in 0..MaxGrid} ELSE {<<>>, <<2>>, <<2, 1>>}
BigGrids == {<<12>>, <<12, 12, 1>>, <<12, 1, 12>>}
Init == files = {} /\ res = <<>> /\ act = [n |-> "init"]
Rec(o, k, g, t, b, kind) == [o |-> o, k |-> k, grid |-> g, t |-> t, base |-> b, kind |-> kind]
Next == \/ \E n \in Pick(Names) : \E sh \in Pick(Shapes) : \E b \in Pick(IF SIM THEN Vals ELSE {0}) : \E c \in Pick(IF SIM THEN 1..2 ELSE {1}) : \E kind \in Pick(Kinds) :
             \E form \in Pick({"list", "array", "mixed"}) : Save(n, Fill(sh, b, c), FALSE, kind, form)
        \/ \E n \in Pick(Names) : \E l \in Pick(1..MaxLen) : \E b \in Pick(IF SIM THEN Vals ELSE {0}) : \E c \in Pick(IF SIM THEN 1..2 ELSE {1}) : \E kind \in Pick(Kinds) :
             \E form \in Pick({"list", "array"}) : Save(n, Fill(<<l>>, b, c), TRUE, kind, form)
        \/ \E l \in Pick(1..MaxLen) : \E b \in Pick(IF SIM THEN Vals ELSE {0}) : \E kind \in Pick(Kinds) : SIM /\ Stamp(Fill(<<l>>, b, 1), kind)
        \/ \E g \in Pick(Grids) : \E m \in Pick({1, 2, 3}) : \E t1 \in Pick(1..MaxLen) : \E t2 \in Pick({0} \cup 1..MaxLen) : \E b \in Pick(Vals) : \E k1 \in Pick(Kinds) : \E k2 \in Pick(Kinds) :
             LET a == Rec("o1", "x", g, t1, b, k1)  c == Rec("o2", "x", g, t2, 0, k2)  d == Rec("o1", "y", g, 1, 1, k2) IN
             (SIM \/ (m = 1 /\ b = 0 /\ k2 = k1)) /\ Run(IF t2 = 0 \/ m = 1 THEN <<a>> ELSE IF m = 2 THEN <<a, c>> ELSE <<a, c, d>>)
        \/ SaveRes
        \/ \E n \in Pick(Names) : Missing(n)

Small == Cardinality(files) <= 3
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* one content per file *)
OneContent == \A f \in files : \A g \in files : Id(f) = Id(g) => f = g
(* saving only ever changes the files it writes *)
OnlyWritten == [][\A f \in files : f \in files' \/ \E g \in files' : Id(g) = Id(f)]_vars
(* every value of the results is in exactly the files of the results *)
RECURSIVE Total(_, _)
Total(rows, i) == IF i = 0 THEN 0 ELSE Len(rows[i]) + Total(rows, i - 1)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET f == CHOOSE f \in S : TRUE IN Sum(S \ {f}) + Total(f.rows, Len(f.rows))
Whole == \A i \in DOMAIN res : Sum(FilesOf(res[i])) = Size(res[i].grid) * res[i].t

Obs == [files |-> files]
Emit  == PrintT("EDGE " \o ToJson([l |-> TLCGet("level"), s |-> V, a |-> act', t |-> V', o |-> Obs']))
EmitI == (act.n = "init") => PrintT("INIT " \o ToJson([s |-> V, o |-> Obs]))
=============================================================================
