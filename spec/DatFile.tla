------------------------------ MODULE DatFile -------------------------------
(* Combining result files (P20). A pool of results, at first those of       *)
(* single runs; results of the same kind, shape and description combine to  *)
(* a new one, others are refused; a result which is written and read again  *)
(* is the same. Errors are held squared.                                    *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    NFiles,
    Shapes,      \* [k |-> dimensions, nx, ny]
    Variants,    \* what differs in the description: 0 nothing, others one thing each
    Odds,        \* how often files are alike: the shapes and variants are chosen from Odds of them
    Values,      \* values of bins
    MaxOps,
    OpKinds,     \* subset of {"add", "list", "write", "merge"}
    Sampling

VARIABLES pool, log, phase, alike

vars == <<pool, log, phase, alike>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

Bins(s) == s.nx * s.ny
Bin == [i : Values, e : Values, n : Values]
RECURSIVE Fill(_)
Fill(n) == IF n = 0 THEN {<<>>}
           ELSE {Append(q, [i |-> a, e |-> b, n |-> c]) : q \in Fill(n - 1), a \in Pick(Values), b \in Pick(Values), c \in Pick(Values)}

Init == pool = <<>> /\ log = <<>> /\ phase = "files"
        /\ alike \in (IF Sampling THEN {RandomElement(Odds)} ELSE Odds)

(* a file of one run; it names its run in the entries which may differ *)
AddFile ==
    /\ phase = "files" /\ Len(pool) < NFiles
    /\ \E s \in (IF pool # <<>> /\ alike THEN {pool[1].s} ELSE Pick(Shapes)),
          v \in (IF pool # <<>> /\ alike THEN {pool[1].v} ELSE Pick(Variants)) :
       \E d \in Fill(Bins(s)), c \in Pick(Values) :
         pool' = Append(pool, [s |-> s, v |-> v, d |-> d, nc |-> c, runs |-> <<Len(pool) + 1>>])
    /\ UNCHANGED <<log, phase, alike>>
StartOps == phase = "files" /\ Len(pool) = NFiles /\ phase' = "ops" /\ UNCHANGED <<pool, log, alike>>

Alike(a, b) == a.s = b.s /\ a.v = b.v
Sum(a, b) == [a EXCEPT !.d = [x \in 1..Len(a.d) |-> [i |-> a.d[x].i + b.d[x].i, e |-> a.d[x].e + b.d[x].e, n |-> a.d[x].n + b.d[x].n]],
                       !.nc = a.nc + b.nc, !.runs = a.runs \o b.runs]
RECURSIVE All(_)
All(q) == IF Len(q) = 1 THEN pool[q[1]] ELSE Sum(All(SubSeq(q, 1, Len(q) - 1)), pool[q[Len(q)]])

(* "add": two of them; "list": several at once; "write": one to a file and back; "merge": files to one file and back *)
Op ==
    /\ phase = "ops" /\ Len(log) < MaxOps
    /\ \E k \in Pick(OpKinds) :
       \E q \in (CASE k = "add" -> {<<a, b>> : a \in Pick(1..Len(pool)), b \in Pick(1..Len(pool))}
                   [] k = "write" -> {<<a>> : a \in Pick(1..Len(pool))}
                   [] OTHER -> LET n == Pick(1..3) IN
                       UNION {IF m = 1 THEN {<<a>> : a \in Pick(1..Len(pool))}
                              ELSE IF m = 2 THEN {<<a, b>> : a \in Pick(1..Len(pool)), b \in Pick(1..Len(pool))}
                              ELSE {<<a, b, c>> : a \in Pick(1..Len(pool)), b \in Pick(1..Len(pool)), c \in Pick(1..Len(pool))} : m \in n}) :
         LET ok == \A x \in 2..Len(q) : Alike(pool[q[1]], pool[q[x]]) IN
         /\ pool' = IF ok THEN Append(pool, All(q)) ELSE pool
         /\ log' = Append(log, [k |-> k, q |-> q, ok |-> ok])
    /\ UNCHANGED <<phase, alike>>
Done ==
    /\ phase = "ops" /\ Len(log) = MaxOps
    /\ phase' = "done" /\ Emit([files |-> NFiles, pool |-> pool, log |-> log])
    /\ UNCHANGED <<pool, log, alike>>
Next == AddFile \/ StartOps \/ Op \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
RECURSIVE Total(_, _)
Total(q, f) == IF q = <<>> THEN 0 ELSE f[q[1]] + Total(Tail(q), f)
(* whatever the grouping, a result is the sum of the runs in it *)
SumOfRuns ==
    \A p \in 1..Len(pool) :
        /\ pool[p].nc = Total(pool[p].runs, [r \in 1..NFiles |-> IF r <= Len(pool) THEN pool[r].nc ELSE 0])
        /\ \A x \in 1..Len(pool[p].d) :
             /\ pool[p].d[x].i = Total(pool[p].runs, [r \in 1..NFiles |-> IF r <= Len(pool) /\ x <= Len(pool[r].d) THEN pool[r].d[x].i ELSE 0])
             /\ pool[p].d[x].e = Total(pool[p].runs, [r \in 1..NFiles |-> IF r <= Len(pool) /\ x <= Len(pool[r].d) THEN pool[r].d[x].e ELSE 0])
             /\ pool[p].d[x].n = Total(pool[p].runs, [r \in 1..NFiles |-> IF r <= Len(pool) /\ x <= Len(pool[r].d) THEN pool[r].d[x].n ELSE 0])
(* results with the same runs are equal *)
Grouping ==
    \A p, r \in 1..Len(pool) : (\A k \in 1..NFiles : Cardinality({x \in 1..Len(pool[p].runs) : pool[p].runs[x] = k})
                                                   = Cardinality({x \in 1..Len(pool[r].runs) : pool[r].runs[x] = k}))
        => pool[p].d = pool[r].d /\ pool[p].nc = pool[r].nc
(* no result has runs of different kinds *)
NoMixing == \A p \in 1..Len(pool) : \A x \in 1..Len(pool[p].runs) : Alike(pool[p], pool[pool[p].runs[x]])
(* what there is stays as it is *)
Unaltered == [][\A p \in 1..Len(pool) : p <= Len(pool') /\ pool'[p] = pool[p]]_vars
=============================================================================
