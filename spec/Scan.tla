-------------------------------- MODULE Scan --------------------------------
(* Scans (P14). Parameters are given ranges, single values or lists; a scan *)
(* walks through its points, element-wise or over every combination, runs   *)
(* the program once per point and stops at the first run which fails.       *)
(* Numbers are decimals: n / 10^e.                                          *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    MaxParams,
    Names,       \* names of the program's parameters
    Starts, Stops, Steps, Exps,
    Texts,       \* texts given as single values
    Kinds,       \* subset of {"range", "one", "text", "list", "plain", "times"}
    MaxLen,      \* most values of one parameter in a scan
    MaxPoints,
    Opts,        \* options of the command line: [o |-> name, v |-> value ("" when it takes none), f |-> "=", " " or ""]
    Forms,       \* subset of {"eq", "sp"}: how parameters are written
    Fails,       \* subset of {0} \cup 1..: the run which fails (0: none)
    Grids,       \* subset of BOOLEAN
    RangesOnly,  \* TRUE: no scan, only what a range consists of
    Sampling

VARIABLES params, grid, cmd, todo, at, runs, fail, status, phase

vars == <<params, grid, cmd, todo, at, runs, fail, status, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

Abs(i) == IF i < 0 THEN -i ELSE i
(* how many steps fit between start and stop; a step away from stop gives nothing *)
Count(a, s, b) ==
    IF (s > 0 /\ b < a) \/ (s < 0 /\ b > a) THEN 0 ELSE (Abs(b - a) \div Abs(s)) + 1
Cell(n, e) == [t |-> "num", n |-> n, e |-> e, s |-> ""]
Word(x) == [t |-> "text", n |-> 0, e |-> 0, s |-> x]
RangeValues(a, s, b, e) == [i \in 1..Count(a, s, b) |-> Cell(a + (i - 1) * s, e)]

Values(p) ==
    CASE p.k = "range" -> RangeValues(p.a, p.s, p.b, p.e)
      [] p.k = "list" -> [i \in 1..p.m |-> IF p.x = "" THEN Cell(p.a + i * i * p.s, p.e) ELSE Word(p.x)]
      [] p.k = "text" -> <<Word(p.x)>>
      [] OTHER -> <<Cell(p.a, p.e)>>                   \* "one", "plain", "times"
Length(p) == Len(Values(p))

Param(nm) ==
    LET As == Pick(Starts) Bs == Pick(Stops) Ss == Pick(Steps) Es == Pick(Exps) Fs == Pick(Forms) IN
    UNION {
       CASE k = "range" -> {[nm |-> nm, k |-> k, a |-> a, s |-> s, b |-> b, e |-> e, m |-> 0, x |-> "", f |-> f] :
                               a \in As, b \in Bs, s \in Ss, e \in Es, f \in Fs}
         [] k = "text" -> {[nm |-> nm, k |-> k, a |-> 0, s |-> 1, b |-> 0, e |-> 0, m |-> 0, x |-> x, f |-> f] :
                               x \in Pick(Texts), f \in Fs}
         [] k = "list" -> {[nm |-> nm, k |-> k, a |-> a, s |-> s, b |-> 0, e |-> e, m |-> m, x |-> x, f |-> f] :
                               a \in As, s \in Ss, e \in Es, m \in Pick(1..MaxLen), x \in Pick({""} \cup Texts), f \in Fs}
         [] OTHER -> {[nm |-> nm, k |-> k, a |-> a, s |-> 1, b |-> 0, e |-> e, m |-> 0, x |-> "", f |-> f] :
                               a \in As, e \in Es, f \in Fs}
       : k \in Pick(Kinds)}
(* a range of one point is given as a single value *)
Sound(p) == /\ p.k = "range" => p.a # p.b
            /\ Length(p) <= MaxLen

Init ==
    /\ params = <<>> /\ cmd = <<>> /\ todo = Opts /\ at = <<>> /\ runs = <<>> /\ status = "ok"
    /\ grid \in Grids /\ fail \in Fails /\ phase = "params"

AddParam ==
    /\ phase = "params" /\ Len(params) < MaxParams
    /\ \E nm \in Pick(Names \ {params[i].nm : i \in 1..Len(params)}) : \E p \in Param(nm) :
         Sound(p) /\ params' = Append(params, p)
    /\ UNCHANGED <<grid, cmd, todo, at, runs, fail, status, phase>>

(* the command line: the program and its parameters in their order, options anywhere between *)
Given == {i \in 1..Len(cmd) : cmd[i].w # "opt"}
StartCommand ==
    /\ phase = "params" /\ Len(params) > 0
    /\ phase' = IF RangesOnly THEN "emit" ELSE "cmd"
    /\ UNCHANGED <<params, grid, cmd, todo, at, runs, fail, status>>
NextWord ==
    /\ phase = "cmd" /\ Cardinality(Given) <= Len(params)
    /\ cmd' = Append(cmd, [w |-> IF Given = {} THEN "file" ELSE "param", i |-> Cardinality(Given), o |-> [o |-> "", v |-> "", f |-> ""]])
    /\ UNCHANGED <<params, grid, todo, at, runs, fail, status, phase>>
AddOption ==
    /\ phase = "cmd"
    /\ \E o \in Pick(todo \cup {[o |-> "", v |-> "", f |-> ""]}) :
        /\ o.o # ""
        /\ cmd' = Append(cmd, [w |-> "opt", i |-> 0, o |-> o])
        /\ todo' = {x \in todo : x.o # o.o}
    /\ UNCHANGED <<params, grid, at, runs, fail, status, phase>>

(* --- the scan --------------------------------------------------------- *)
L(i) == Length(params[i])
Ps == 1..Len(params)
Longest == CHOOSE m \in {L(i) : i \in Ps} : \A i \in Ps : L(i) <= m
Refused == \/ \E i \in Ps : L(i) = 0
           \/ ~grid /\ \E i \in Ps : L(i) > 1 /\ L(i) # Longest
RECURSIVE Prod(_)
Prod(i) == IF i = 0 THEN 1 ELSE L(i) * Prod(i - 1)
NPoints == IF Refused THEN 0 ELSE IF grid THEN Prod(Len(params)) ELSE Longest

StartScan ==
    /\ phase = "cmd" /\ Cardinality(Given) = Len(params) + 1
    /\ NPoints <= MaxPoints
    /\ at' = [i \in Ps |-> 1]
    /\ phase' = IF Refused THEN "emit" ELSE "run"
    /\ status' = IF Refused THEN "refused" ELSE "ok"
    /\ UNCHANGED <<params, grid, cmd, todo, runs, fail>>

Point == [i \in Ps |-> Values(params[i])[at[i]]]
(* the last parameter moves fastest *)
Turning(i) == \A j \in Ps : j > i => at[j] = L(j)
Advance(i) == IF grid THEN (IF Turning(i) THEN (IF at[i] = L(i) THEN 1 ELSE at[i] + 1) ELSE at[i])
              ELSE (IF L(i) = 1 THEN 1 ELSE at[i] + 1)
Last == IF grid THEN \A i \in Ps : at[i] = L(i) ELSE \A i \in Ps : L(i) > 1 => at[i] = L(i)
RunPoint ==
    /\ phase = "run"
    /\ runs' = Append(runs, Point)
    /\ IF Len(runs) + 1 = fail THEN status' = "failed" /\ phase' = "emit" /\ at' = at
       ELSE IF Last THEN phase' = "emit" /\ UNCHANGED <<status, at>>
       ELSE at' = [i \in Ps |-> Advance(i)] /\ UNCHANGED <<status, phase>>
    /\ UNCHANGED <<params, grid, cmd, todo, fail>>

Done ==
    /\ phase = "emit" /\ phase' = "done"
    /\ Emit([params |-> params, grid |-> grid, cmd |-> cmd, runs |-> runs, fail |-> fail, status |-> status,
             n |-> IF RangesOnly THEN 0 ELSE NPoints,
             vals |-> [i \in Ps |-> Values(params[i])]])
    /\ UNCHANGED <<params, grid, cmd, todo, at, runs, fail, status>>

Next == AddParam \/ StartCommand \/ NextWord \/ AddOption \/ StartScan \/ RunPoint \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Scanned == phase \in {"emit", "done"} /\ ~RangesOnly
(* as many runs as there are points, no point twice unless a value is repeated, all of them unless a run failed *)
EveryPoint ==
    Scanned => /\ status = "ok" => Len(runs) = NPoints
               /\ status = "refused" => runs = <<>>
               /\ status = "failed" => Len(runs) = fail
(* run r has the values the scan prescribes for point r *)
RECURSIVE After(_)
After(i) == IF i = Len(params) THEN 1 ELSE L(i + 1) * After(i + 1)
Prescribed(r, i) == Values(params[i])[IF grid THEN (((r - 1) \div After(i)) % L(i)) + 1 ELSE IF L(i) = 1 THEN 1 ELSE r]
RightValues == Scanned => \A r \in 1..Len(runs) : \A i \in Ps : runs[r][i] = Prescribed(r, i)
Combinations ==
    Scanned /\ status = "ok" /\ grid /\ Len(runs) <= 12 =>
        {runs[r] : r \in 1..Len(runs)} = {c \in [Ps -> UNION {{Values(params[i])[j] : j \in 1..L(i)} : i \in Ps}] :
                                            \A i \in Ps : \E j \in 1..L(i) : c[i] = Values(params[i])[j]}
(* a range starts at its start, keeps its step, does not pass its end and stops short of it by less than a step *)
RangeLaws ==
    \A i \in Ps : LET p == params[i] v == Values(p) IN p.k = "range" =>
        /\ Len(v) > 0 => v[1].n = p.a /\ Abs(p.b - v[Len(v)].n) < Abs(p.s)
        /\ \A j \in 1..Len(v) : (p.s > 0 => v[j].n <= p.b) /\ (p.s < 0 => v[j].n >= p.b)
        /\ \A j \in 2..Len(v) : v[j].n - v[j - 1].n = p.s
        /\ Len(v) = 0 <=> (p.s > 0 /\ p.b < p.a) \/ (p.s < 0 /\ p.b > p.a)
(* the order of the parameters on the command line is the order they were given in *)
CommandOrder == \A i, j \in Given : i < j => cmd[i].i < cmd[j].i
=============================================================================
