------------------------------ MODULE Registry ------------------------------
(* Where names resolve (P13). Sources provide files; they are searched by   *)
(* decreasing priority, in the order given among equals; a search path      *)
(* added later comes before everything there is. What a lookup gives is a   *)
(* version of a file of one source; component definitions are read once.    *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    NGiven,      \* sources given at the start
    NDirs,       \* directories which may be added as search paths
    Kinds,       \* subset of {"mem", "local", "remote", "module"}
    Prios,       \* priorities
    Files,       \* file names a source may provide
    Layouts,     \* where in a source files are: "root", "sub" (in a directory), "own" (in a directory of their own name)
    Lookups,     \* [k |-> "comp" or "file", n |-> what is asked for, f |-> the file which answers]
    MaxOps,
    SearchForms, \* subset of {"path", "named", "relative", "shell"}
    WriteKinds,  \* kinds of source whose files can change
    Sampling

VARIABLES srcs, order, defs, log, phase

vars == <<srcs, order, defs, log, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

N == NGiven + NDirs
Source(K) == {[kind |-> k, prio |-> p, lay |-> l, files |-> [f \in fs |-> 1]] :
                 k \in K, p \in Prios, l \in Layouts, fs \in SUBSET Files}
OneSource(K) ==
    IF ~Sampling THEN {s \in Source(K) : s.kind = "mem" => s.lay = "root"}
    ELSE {[kind |-> k, prio |-> RandomElement(Prios), lay |-> IF k = "mem" THEN "root" ELSE RandomElement(Layouts),
           files |-> [f \in RandomElement(SUBSET Files) |-> 1]] : k \in Pick(K)}

(* the order in which sources are searched *)
Before(s, i, j) == s[i].prio > s[j].prio \/ (s[i].prio = s[j].prio /\ i < j)
Sorted(s, n) == CHOOSE q \in [1..n -> 1..n] :
                   (\A i, j \in 1..n : i # j => q[i] # q[j]) /\ (\A i, j \in 1..n : i < j => Before(s, q[i], q[j]))

RECURSIVE Choose(_, _)
Choose(n, K) == IF n = 0 THEN {<<>>} ELSE {Append(a, b) : a \in Choose(n - 1, K), b \in OneSource(K)}

Setup ==
    /\ phase = "setup"
    /\ \E g \in Choose(NGiven, Kinds), d \in Choose(NDirs, {"local"}) :
        /\ srcs' = g \o d
        /\ order' = IF NGiven = 0 THEN <<>> ELSE Sorted(g, NGiven)
    /\ phase' = "run" /\ UNCHANGED <<defs, log>>

Provides(f, o) == {k \in 1..Len(o) : f \in DOMAIN srcs[o[k]].files}
First(f, o) == LET h == Provides(f, o) IN IF h = {} THEN 0 ELSE o[CHOOSE k \in h : \A j \in h : k <= j]
Answer(f, o) == LET s == First(f, o) IN IF s = 0 THEN [src |-> 0, v |-> 0] ELSE [src |-> s, v |-> srcs[s].files[f]]
Known(n) == n \in DOMAIN defs

Lookup ==
    /\ \E l \in Pick(Lookups) :
        LET a == IF l.k = "comp" /\ Known(l.n) THEN defs[l.n] ELSE Answer(l.f, order)
        IN /\ log' = Append(log, [op |-> "lookup", k |-> l.k, n |-> l.n, f |-> l.f, a |-> a])
           /\ defs' = IF l.k = "comp" /\ ~Known(l.n) /\ a.src # 0 THEN [x \in DOMAIN defs \cup {l.n} |-> IF x = l.n THEN a ELSE defs[x]]
                      ELSE defs
    /\ UNCHANGED <<srcs, order, phase>>

(* a search path is added in front of all others, whatever has been read *)
Search ==
    /\ \E d \in Pick({x \in (NGiven + 1)..N : \A k \in 1..Len(order) : order[k] # x} \cup {0}), form \in Pick(SearchForms) :
        /\ d # 0
        /\ order' = <<d>> \o order
        /\ log' = Append(log, [op |-> "search", src |-> d, form |-> form])
    /\ UNCHANGED <<srcs, defs, phase>>

(* a file appears in, or changes in, a source which can change *)
Write ==
    /\ \E i \in Pick(1..N), f \in Pick(Files) :
        /\ srcs[i].kind \in WriteKinds
        /\ srcs' = [srcs EXCEPT ![i].files = [x \in DOMAIN @ \cup {f} |-> IF x = f THEN (IF f \in DOMAIN @ THEN @[f] + 1 ELSE 1) ELSE @[x]]]
        /\ log' = Append(log, [op |-> "write", src |-> i, f |-> f, v |-> srcs'[i].files[f]])
    /\ UNCHANGED <<order, defs, phase>>

Run == phase = "run" /\ Len(log) < MaxOps /\ (Lookup \/ Search \/ Write)
Done ==
    /\ phase = "run" /\ Len(log) = MaxOps
    /\ phase' = "done"
    /\ Emit([srcs |-> [i \in 1..N |-> [srcs[i] EXCEPT !.files = {[f |-> f, v |-> srcs[i].files[f]] : f \in DOMAIN srcs[i].files}]],
             given |-> NGiven, log |-> log, final |-> {[f |-> f, a |-> Answer(f, order)] : f \in Files}])
    /\ UNCHANGED <<srcs, order, defs, log>>

Init == srcs = <<>> /\ order = <<>> /\ defs = [x \in {} |-> 0] /\ log = <<>> /\ phase = "setup"
Next == Setup \/ Run \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* a lookup fails exactly when no source provides the file *)
FailsWhenAbsent ==
    \A l \in Lookups : (Answer(l.f, order).src = 0) <=> (\A k \in 1..Len(order) : l.f \notin DOMAIN srcs[order[k]].files)
(* nothing searched earlier provides what is found *)
HighestWins ==
    \A l \in Lookups : LET a == Answer(l.f, order) IN
        a.src # 0 => \A k \in 1..Len(order) : l.f \in DOMAIN srcs[order[k]].files =>
            \/ order[k] = a.src
            \/ a.src > NGiven                                            \* found in a search path
            \/ (order[k] <= NGiven /\ Before(srcs, a.src, order[k]))
(* a definition, once read, stays what it is *)
DefsStable == [][\A n \in DOMAIN defs : n \in DOMAIN defs' /\ defs'[n] = defs[n]]_vars
(* one definition per name: all lookups of a component in a history agree, once it was found *)
OneDefinition ==
    \A i, j \in 1..Len(log) :
        (log[i].op = "lookup" /\ log[j].op = "lookup" /\ log[i].k = "comp" /\ log[j].k = "comp"
         /\ log[i].n = log[j].n /\ i < j /\ log[i].a.src # 0) => log[i].a = log[j].a
=============================================================================
