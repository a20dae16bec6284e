------------------------------ MODULE UserVars ------------------------------
(* The variables every particle has because blocks of the instrument and of *)
(* its components' definitions declare them (P21). An instrument's have     *)
(* their own names; a component's exist once for every instance, with its   *)
(* place in the instrument appended to their names. The same declaration    *)
(* twice is one variable, two which differ under one name are refused.      *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    NTypes, MaxInst,
    MaxDecls,        \* of the instrument, and of each component
    Words,           \* names: sequences of numbers (what is after the first number are suffixes)
    Kinds,           \* types: 1 and 2 are single numbers which start as zero, or as their declaration says
    Starts,          \* subset of 0..: 0 none is given
    Cuts,            \* subset of BOOLEAN: whether a new block starts before a declaration
    Rays, Sampling

VARIABLES own, comps, line, fields, refused, todo, vals, ray, at, log, phase
v == <<own, comps, line, fields, refused, todo, vals, ray, at, log, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

Init ==
    /\ own = <<>> /\ comps = [t \in 1..NTypes |-> <<>>] /\ line = <<>> /\ fields = <<>> /\ refused = FALSE
    /\ todo = <<>> /\ vals = <<>> /\ ray = 0 /\ at = 0 /\ log = <<>> /\ phase = "own"

Decl(x) == {[n |-> n, ty |-> k, st |-> IF k <= 2 THEN s ELSE 0, cut |-> c] : n \in Pick(Words), k \in Pick(Kinds), s \in Pick(Starts), c \in Pick(Cuts)}
Own ==
    /\ phase = "own" /\ Len(own) < MaxDecls
    /\ \E d \in Decl(own) : own' = Append(own, d)
    /\ UNCHANGED <<comps, line, fields, refused, todo, vals, ray, at, log, phase>>
Component ==
    /\ phase \in {"own", "comps"}
    /\ Sampling /\ phase = "own" => RandomElement(1..4) = 1
    /\ \E t \in Pick(1..NTypes) : \E d \in Decl(own) :
        /\ Len(comps[t]) < MaxDecls
        /\ Sampling \/ \A u \in t + 1..NTypes : comps[u] = <<>>
        /\ comps' = [comps EXCEPT ![t] = Append(@, d)]
    /\ phase' = "comps"
    /\ UNCHANGED <<own, line, fields, refused, todo, vals, ray, at, log>>
Place ==
    /\ phase \in {"own", "comps", "line"} /\ Len(line) < MaxInst
    /\ Sampling /\ phase # "line" => RandomElement(1..8) = 1
    /\ \E t \in Pick(1..NTypes) : line' = Append(line, t)
    /\ phase' = "line"
    /\ UNCHANGED <<own, comps, fields, refused, todo, vals, ray, at, log>>

(* --- all of them come together --------------------------------------- *)
Plain(d) == [n |-> d.n, ty |-> d.ty, st |-> d.st]
(* the declarations in the order of the particle: the instrument's, then type by type in the order of their first instances *)
RECURSIVE TypesOf(_)
TypesOf(l) == IF l = <<>> THEN <<>> ELSE
    LET n == Len(l) before == TypesOf(SubSeq(l, 1, n - 1)) IN
    IF \E i \in 1..n - 1 : l[i] = l[n] THEN before ELSE Append(before, l[n])
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Concat(SubSeq(s, 1, Len(s) - 1)) \o s[Len(s)]
Instance(i) == [j \in 1..Len(comps[line[i]]) |-> [Plain(comps[line[i]][j]) EXCEPT !.n = Append(@, i)]]
OfType(t) == Concat([i \in 1..Len(line) |-> IF line[i] = t THEN Instance(i) ELSE <<>>])
All == [j \in 1..Len(own) |-> Plain(own[j])] \o Concat([k \in 1..Len(TypesOf(line)) |-> OfType(TypesOf(line)[k])])
Merge ==
    /\ phase = "line" /\ (Sampling => Len(line) = MaxInst \/ RandomElement(1..3) = 1)
    /\ phase' = "merge" /\ todo' = All
    /\ UNCHANGED <<own, comps, line, fields, refused, vals, ray, at, log>>
TakeIn ==
    /\ phase = "merge" /\ todo # <<>> /\ ~refused
    /\ LET d == Head(todo)
           there == {i \in 1..Len(fields) : fields[i].n = d.n} IN
        IF there = {} THEN fields' = Append(fields, d) /\ UNCHANGED refused
        ELSE refused' = (\E i \in there : fields[i] # d) /\ UNCHANGED fields
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<own, comps, line, vals, ray, at, log, phase>>
Merged ==
    /\ phase = "merge" /\ (todo = <<>> \/ refused)
    /\ phase' = IF refused THEN "emit" ELSE "ray"
    /\ UNCHANGED <<own, comps, line, fields, refused, todo, vals, ray, at, log>>

(* --- particles: each starts as declared, then goes through all instances -- *)
Unknown == -1
Birth ==
    /\ phase = "ray" /\ ray < Rays
    /\ ray' = ray + 1 /\ at' = 1 /\ phase' = "trace"
    /\ vals' = [i \in 1..Len(fields) |-> IF fields[i].ty > 2 THEN Unknown ELSE fields[i].st]
    /\ UNCHANGED <<own, comps, line, fields, refused, todo, log>>
(* an instance sees what there is, then sets all of its variables *)
Mine(i) == {j \in 1..Len(fields) : \E k \in 1..Len(comps[line[i]]) : fields[j].n = Append(comps[line[i]][k].n, i)}
Trace ==
    /\ phase = "trace" /\ at <= Len(line)
    /\ log' = Append(log, vals)
    /\ vals' = [j \in 1..Len(fields) |-> IF j \in Mine(at) THEN 20 * ray + 3 * at + j ELSE vals[j]]
    /\ at' = at + 1
    /\ UNCHANGED <<own, comps, line, fields, refused, todo, ray, phase>>
Death ==
    /\ phase = "trace" /\ at > Len(line)
    /\ log' = Append(log, vals) /\ phase' = "ray"
    /\ UNCHANGED <<own, comps, line, fields, refused, todo, vals, ray, at>>
Done ==
    /\ phase = "emit" \/ (phase = "ray" /\ ray = Rays)
    /\ phase' = "done"
    /\ Emit([own |-> own, comps |-> comps, line |-> line, fields |-> fields, refused |-> refused, log |-> log])
    /\ UNCHANGED <<own, comps, line, fields, refused, todo, vals, ray, at, log>>

Next == Own \/ Component \/ Place \/ Merge \/ TakeIn \/ Merged \/ Birth \/ Trace \/ Death \/ Done
Spec == Init /\ [][Next]_v
------------------------------------------------------------------------------
Ready == phase \in {"ray", "trace"} \/ (phase = "done" /\ ~refused)
(* every declaration has its variable, and every variable a declaration; no name is there twice *)
NothingLost == Ready => {fields[i] : i \in 1..Len(fields)} = {All[i] : i \in 1..Len(All)}
OneEach == \A i, j \in 1..Len(fields) : fields[i].n = fields[j].n => i = j
(* refused exactly when two declarations of one name differ *)
Conflict == \E i, j \in 1..Len(All) : All[i].n = All[j].n /\ All[i] # All[j]
RightlyRefused == (phase = "done" => (refused <=> Conflict))
(* an instance changes its own variables only *)
OwnOnly == [][phase = "trace" /\ phase' = "trace" => \A j \in 1..Len(fields) : vals'[j] # vals[j] => j \in Mine(at)]_v
=============================================================================
