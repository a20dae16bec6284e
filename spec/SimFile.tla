------------------------------ MODULE SimFile -------------------------------
(* Combining simulation descriptions (mccode.sim, P22). A pool of files, at *)
(* first those of single runs. Each has a description, run parameters and   *)
(* its detectors. What is combined has every detector once: those found in  *)
(* several files are repeats, which add up if they are described alike, and *)
(* refused otherwise. Errors are held squared, means times their weights.   *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    NFiles,
    Detectors,   \* [c |-> component, f |-> file or 0, k |-> kind]
    MaxData,     \* detectors of a file
    Variants,    \* how a detector is described: 0 as usual, others one thing different each
    Descs,       \* the simulation: 0 as usual, others one thing different each
    Params,      \* the run parameters are a subset of these
    Heads,       \* the texts of the heading and of the instrument
    Odds,        \* how often files are of one simulation
    Values,
    MaxOps,
    OpKinds,     \* subset of {"list", "write", "merge"}
    Sampling

VARIABLES pool, log, phase, alike

vars == <<pool, log, phase, alike>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

Init == pool = <<>> /\ log = <<>> /\ phase = "files"
        /\ alike \in (IF Sampling THEN {RandomElement(Odds)} ELSE Odds)

Same(a, b) == a.c = b.c /\ a.f = b.f
(* the detectors of a file: none twice *)
RECURSIVE Data(_)
Data(n) == IF n = 0 THEN {<<>>}
           ELSE UNION {{Append(q, [c |-> d.c, f |-> d.f, k |-> d.k, v |-> v, nc |-> x[1], i |-> x[2], e |-> x[3], n |-> x[4],
                                   lo |-> x[5], hi |-> x[5] + x[2], m |-> x[4] * x[5], none |-> x[3] = 1])
                        : d \in {y \in Pick(Detectors) : \A z \in 1..Len(q) : ~Same(y, q[z])},
                          v \in Pick(Variants),
                          x \in {<<a, b, c, w, l>> : a \in Pick(Values), b \in Pick(Values), c \in Pick(Values), w \in Pick(Values), l \in Pick(Values)}}
                       : q \in Data(n - 1)}
Sets(S) == IF Sampling THEN {{p \in S : RandomElement({p, 0}) # 0}} ELSE SUBSET S

AddFile ==
    /\ phase = "files" /\ Len(pool) < NFiles
    /\ \E n \in Pick(0..MaxData) : \E d \in Data(n), h \in Pick(Heads), c \in Pick(Values) :
       \E v \in (IF pool # <<>> /\ alike THEN {pool[1].v} ELSE Pick(Descs)),
          p \in (IF pool # <<>> /\ alike THEN {pool[1].params} ELSE Sets(Params)) :
         pool' = Append(pool, [head |-> h, v |-> v, params |-> p, nc |-> c, known |-> TRUE, d |-> d, runs |-> <<Len(pool) + 1>>])
    /\ UNCHANGED <<log, phase, alike>>
StartOps == phase = "files" /\ Len(pool) = NFiles /\ phase' = "ops" /\ UNCHANGED <<pool, log, alike>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Both(a, b) == [a EXCEPT !.nc = a.nc + b.nc, !.i = a.i + b.i, !.e = a.e + b.e, !.n = a.n + b.n, !.lo = Min(a.lo, b.lo), !.hi = Max(a.hi, b.hi),
                        !.m = a.m + b.m, !.none = a.none \/ b.none]
At(q, x) == {k \in 1..Len(q) : Same(q[k], x)}
RECURSIVE Union(_, _)
Union(q, r) == IF r = <<>> THEN q
               ELSE LET x == r[1] IN
                    Union(IF At(q, x) = {} THEN Append(q, x)
                          ELSE [k \in 1..Len(q) |-> IF k \in At(q, x) THEN Both(q[k], x) ELSE q[k]], Tail(r))
Repeats(a, b) == \A x \in 1..Len(a.d), y \in 1..Len(b.d) : Same(a.d[x], b.d[y]) => a.d[x].v = b.d[y].v /\ a.d[x].k = b.d[y].k
(* the number of rays is that of all runs if they are of one simulation; otherwise it is not said what it is *)
Sum(a, b) == [a EXCEPT !.d = Union(a.d, b.d), !.nc = a.nc + b.nc, !.params = a.params \union b.params,
                       !.known = a.known /\ b.known /\ a.v = b.v /\ a.params = b.params, !.runs = a.runs \o b.runs]
RECURSIVE All(_)
All(q) == IF Len(q) = 1 THEN pool[q[1]] ELSE Sum(All(SubSeq(q, 1, Len(q) - 1)), pool[q[Len(q)]])

(* "list": several at once; "write": one to a file and back; "merge": files to one file and back *)
Op ==
    /\ phase = "ops" /\ Len(log) < MaxOps
    /\ \E k \in Pick(OpKinds) :
       \E q \in (IF k = "write" THEN {<<a>> : a \in Pick(1..Len(pool))}
                 ELSE LET n == Pick(1..3) IN
                      UNION {IF m = 1 THEN {<<a>> : a \in Pick(1..Len(pool))}
                             ELSE IF m = 2 THEN {<<a, b>> : a \in Pick(1..Len(pool)), b \in Pick(1..Len(pool))}
                             ELSE {<<a, b, c>> : a \in Pick(1..Len(pool)), b \in Pick(1..Len(pool)), c \in Pick(1..Len(pool))} : m \in n}) :
         LET ok == \A x, y \in 1..Len(q) : Repeats(pool[q[x]], pool[q[y]]) IN
         /\ pool' = IF ok THEN Append(pool, All(q)) ELSE pool
         /\ log' = Append(log, [k |-> k, q |-> q, ok |-> ok])
    /\ UNCHANGED <<phase, alike>>
Done ==
    /\ phase = "ops" /\ Len(log) = MaxOps
    /\ phase' = "done" /\ Emit([files |-> NFiles, pool |-> pool, log |-> log])
    /\ UNCHANGED <<pool, log, alike>>
Next == AddFile \/ StartOps \/ Op \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
RECURSIVE Total(_, _)
Total(q, f) == IF q = <<>> THEN 0 ELSE f[q[1]] + Total(Tail(q), f)
Of(r, x, g) == IF r <= Len(pool) /\ At(pool[r].d, x) # {} THEN LET y == pool[r].d[CHOOSE k \in At(pool[r].d, x) : TRUE] IN
                                                          IF g = 1 THEN y.nc ELSE IF g = 2 THEN y.i ELSE IF g = 3 THEN y.e ELSE IF g = 4 THEN y.n ELSE y.m
               ELSE 0
Sums(p, x) == <<x.nc, x.i, x.e, x.n, x.m>> = [g \in 1..5 |-> Total(p.runs, [r \in 1..NFiles |-> Of(r, x, g)])]
(* whatever the grouping, a detector's result is the sum of those of the runs which have it *)
SumOfRuns == \A p \in 1..Len(pool) : \A x \in 1..Len(pool[p].d) : Sums(pool[p], pool[p].d[x])
(* every detector of a run is there, once, and no other *)
EveryDetectorOnce ==
    \A p \in 1..Len(pool) :
        /\ \A x, y \in 1..Len(pool[p].d) : Same(pool[p].d[x], pool[p].d[y]) => x = y
        /\ \A x \in 1..Len(pool[p].d) : \E r \in 1..Len(pool[p].runs) : At(pool[pool[p].runs[r]].d, pool[p].d[x]) # {}
        /\ \A r \in 1..Len(pool[p].runs) : \A x \in 1..Len(pool[pool[p].runs[r]].d) : At(pool[p].d, pool[pool[p].runs[r]].d[x]) # {}
(* no detector is a mixture *)
NoMixing ==
    \A p \in 1..Len(pool) : \A x \in 1..Len(pool[p].d), r \in 1..Len(pool[p].runs) :
        \A y \in At(pool[pool[p].runs[r]].d, pool[p].d[x]) : pool[pool[p].runs[r]].d[y].v = pool[p].d[x].v
(* the number of rays is that of all runs *)
Rays == \A p \in 1..Len(pool) : pool[p].nc = Total(pool[p].runs, [r \in 1..NFiles |-> IF r <= Len(pool) THEN pool[r].nc ELSE 0])
Unaltered == [][\A p \in 1..Len(pool) : p <= Len(pool') /\ pool'[p] = pool[p]]_vars
=============================================================================
