-------------------------------- MODULE Access --------------------------------
(* What a compiled program gives access to by name (P26): the state of a        *)
(* particle, with the variables its instrument's and components' definitions    *)
(* add, the parameters of every component and its position in the sequence.     *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    Flavors,             \* 1 neutrons, 2 x-rays
    Kinds,               \* of variables: 1 double, 2 int, 3 three doubles, 4 two ints, 5 a double and 6 an int with a value to start with, 7 long
    MaxOwn, NTypes, MaxVars, MaxInst,
    Values, MaxOps, Ops, Sampling

VARIABLES flavor, own, types, line, part, kept, log, phase
vars == <<flavor, own, types, line, part, kept, log, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

State(f) == IF f = 1 THEN <<"x", "y", "z", "vx", "vy", "vz", "sx", "sy", "sz", "t", "p">>
                     ELSE <<"x", "y", "z", "kx", "ky", "kz", "phi", "Ex", "Ey", "Ez", "t", "p">>
Spare == <<"_mctmp_a", "_mctmp_b", "_mctmp_c">>
Forward(f) == IF f = 1 THEN "vz" ELSE "kz"
Size(k) == CASE k = 3 -> 3 [] k = 4 -> 2 [] OTHER -> 1
Start(k) == IF k \in {5, 6} THEN 7 ELSE 0

(* the variables which are added: where from, which of them, what kind. The      *)
(* instrument's come first, then by type all of its instances                    *)
RECURSIVE OfInstances(_, _)
OfInstances(t, k) ==
    IF k > Len(line) THEN <<>>
    ELSE (IF line[k] = t THEN [j \in 1..Len(types[t]) |-> [at |-> k, n |-> j, kind |-> types[t][j]]] ELSE <<>>) \o OfInstances(t, k + 1)
RECURSIVE OfTypes(_)
(* in the order in which the types are first used *)
OfTypes(k) ==
    IF k > Len(line) THEN <<>>
    ELSE (IF \E j \in 1..k - 1 : line[j] = line[k] THEN <<>> ELSE OfInstances(line[k], 1)) \o OfTypes(k + 1)
Added == [j \in 1..Len(own) |-> [at |-> 0, n |-> j, kind |-> own[j]]] \o OfTypes(1)

Init ==
    /\ flavor = 0 /\ own = <<>> /\ types = [t \in 1..NTypes |-> <<>>] /\ line = <<>>
    /\ part = [state |-> <<>>, spare |-> <<>>, added |-> <<>>, gone |-> FALSE] /\ kept = part
    /\ log = <<>> /\ phase = "flavor"

Flavor == phase = "flavor" /\ flavor' \in Pick(Flavors) /\ phase' = "own" /\ UNCHANGED <<own, types, line, part, kept, log>>
Own ==
    /\ phase = "own"
    /\ \E n \in Pick(0..MaxOwn) :
        IF n <= Len(own) THEN phase' = "types" /\ UNCHANGED own
        ELSE (\E k \in Pick(Kinds) : own' = Append(own, k)) /\ phase' = "own"
    /\ UNCHANGED <<flavor, types, line, part, kept, log>>
Types ==
    /\ phase = "types"
    /\ \E t \in Pick({0} \cup {x \in 1..NTypes : Len(types[x]) < MaxVars}), k \in Pick(Kinds) :
        IF t = 0 THEN phase' = "line" /\ UNCHANGED types
        ELSE types' = [types EXCEPT ![t] = Append(@, k)] /\ phase' = "types"
    /\ UNCHANGED <<flavor, own, line, part, kept, log>>

Zeros(s) == [j \in 1..Len(s) |-> 0]
Generated == [j \in 1..Len(State(flavor)) |-> IF State(flavor)[j] \in {Forward(flavor), "p"} THEN 1 ELSE 0]
New == [state |-> Generated, spare |-> <<0, 0, 0>>, gone |-> FALSE,
        added |-> [j \in 1..Len(Added) |-> [i \in 1..Size(Added[j].kind) |-> 0]]]
Line ==
    /\ phase = "line"
    /\ \E t \in Pick(0..NTypes) :
        IF t = 0 \/ Len(line) = MaxInst
        THEN phase' = "run" /\ part' = New /\ kept' = New /\ UNCHANGED line
        ELSE line' = Append(line, t) /\ UNCHANGED <<phase, part, kept>>
    /\ UNCHANGED <<flavor, own, types, log>>

Note(r) == log' = Append(log, r)
Same == UNCHANGED <<part, kept>>

(* which: 1 the state, 2 what is spare, 3 what is added, 4 nothing of that name *)
Whole == [w : {1}, j : 1..Len(State(flavor))] \cup [w : {2}, j : 1..3] \cup [w : {3}, j : 1..Len(Added)] \cup [w : {4}, j : 1..3]
Single(m) == m.w # 3 \/ Size(Added[m.j].kind) = 1
Value(m) == CASE m.w = 1 -> part.state[m.j] [] m.w = 2 -> part.spare[m.j] [] OTHER -> part.added[m.j][1]
With(m, x) == CASE m.w = 1 -> [part EXCEPT !.state[m.j] = x] [] m.w = 2 -> [part EXCEPT !.spare[m.j] = x] [] m.w = 3 -> [part EXCEPT !.added[m.j][1] = x]

(* a number by its name *)
Get ==
    /\ \E m \in Pick({m \in Whole : Single(m)}) :
        Note([op |-> "get", w |-> m.w, j |-> m.j, ok |-> m.w # 4, x |-> IF m.w = 4 THEN 0 ELSE Value(m)])
    /\ Same
(* where a thing of that name is, with all that is there *)
Where ==
    /\ \E m \in Pick(Whole) :
        Note([op |-> "where", w |-> m.w, j |-> m.j, ok |-> m.w # 4,
              xs |-> IF m.w = 4 THEN <<>> ELSE IF m.w = 3 THEN part.added[m.j] ELSE <<Value(m)>>])
    /\ Same
(* the same of what is added only *)
Extra ==
    /\ \E m \in Pick(Whole) :
        Note([op |-> "extra", w |-> m.w, j |-> m.j, ok |-> m.w = 3, xs |-> IF m.w = 3 THEN part.added[m.j] ELSE <<>>])
    /\ Same
(* by number *)
ById ==
    /\ \E j \in Pick(0..Len(Added) + 1) :
        /\ IF j \in 1..Len(Added) THEN Size(Added[j].kind) = 1 ELSE TRUE
        /\ LET ok == j \in 1..Len(Added) IN Note([op |-> "byid", j |-> j, ok |-> ok, x |-> IF ok THEN part.added[j][1] ELSE 0])
    /\ Same
Set ==
    /\ \E m \in Pick({m \in Whole : Single(m)}), x \in Pick(Values) :
        /\ part' = IF m.w = 4 THEN part ELSE With(m, x)
        /\ Note([op |-> "set", w |-> m.w, j |-> m.j, ok |-> m.w # 4, x |-> x])
    /\ UNCHANGED kept
(* as many as are given, of what there are many *)
SetMany ==
    /\ \E m \in Pick({m \in Whole : m.w = 3 => ~Single(m)}), n \in Pick(1..3), x \in Pick(Values) :
        LET k == IF m.w = 3 /\ n > Size(Added[m.j].kind) THEN Size(Added[m.j].kind) ELSE n IN
        /\ part' = IF m.w = 3 THEN [part EXCEPT !.added[m.j] = [i \in 1..Len(@) |-> IF i <= k THEN x + i ELSE @[i]]] ELSE part
        /\ Note([op |-> "many", w |-> m.w, j |-> m.j, ok |-> m.w = 3, n |-> k, x |-> x])
    /\ UNCHANGED kept
Keep == kept' = part /\ Note([op |-> "keep"]) /\ UNCHANGED part
Absorb == part' = [part EXCEPT !.gone = TRUE] /\ Note([op |-> "absorb"]) /\ UNCHANGED kept
(* the state is what it was, the rest is not touched *)
Restore ==
    /\ part' = [part EXCEPT !.state = kept.state, !.gone = FALSE]
    /\ Note([op |-> "restore"]) /\ UNCHANGED kept
(* numbers start as zero or as declared, what there are many of is left alone *)
Begin ==
    /\ part' = [part EXCEPT !.added = [j \in 1..Len(@) |-> IF Added[j].kind \in {1, 2, 5, 6} THEN <<Start(Added[j].kind)>> ELSE @[j]]]
    /\ Note([op |-> "begin"]) /\ UNCHANGED kept
Fresh == part' = New /\ Note([op |-> "fresh"]) /\ UNCHANGED kept
(* a component by name; 0 is one there is not *)
Component ==
    /\ \E k \in Pick(0..Len(line)) :
        Note([op |-> "component", k |-> k, index |-> IF k = 0 THEN -1 ELSE k])
    /\ Same
Everything == Note([op |-> "all", state |-> part.state, spare |-> part.spare, added |-> part.added, gone |-> part.gone]) /\ Same

Run ==
    /\ phase = "run" /\ Len(log) < MaxOps
    /\ \E o \in Pick(Ops) :
        \/ o = "get" /\ Get
        \/ o = "where" /\ Where
        \/ o = "extra" /\ Extra
        \/ o = "byid" /\ ById
        \/ o = "set" /\ Set
        \/ o = "many" /\ SetMany
        \/ o = "keep" /\ Keep
        \/ o = "absorb" /\ Absorb
        \/ o = "restore" /\ Restore
        \/ o = "begin" /\ Begin
        \/ o = "fresh" /\ Fresh
        \/ o = "component" /\ Component
        \/ o = "all" /\ Everything
    /\ UNCHANGED <<flavor, own, types, line, phase>>
Done ==
    /\ phase = "run" /\ Len(log) = MaxOps
    /\ Emit([flavor |-> flavor, own |-> own, types |-> types, line |-> line, state |-> State(flavor), log |-> log,
             added |-> Added, end |-> part])
    /\ phase' = "done" /\ UNCHANGED <<flavor, own, types, line, part, kept, log>>
Next == Flavor \/ Own \/ Types \/ Line \/ Run \/ Done
Spec == Init /\ [][Next]_vars

(* every instance of a definition has its own variables *)
Own1 == phase \in {"run", "done"} =>
    /\ Len(Added) = Len(own) + Len(OfTypes(1))
    /\ \A i, j \in 1..Len(Added) : i # j => Added[i].at # Added[j].at \/ Added[i].n # Added[j].n
    /\ \A k \in 1..Len(line) : Cardinality({j \in 1..Len(Added) : Added[j].at = k}) = Len(types[line[k]])
(* asking changes nothing, and nothing but what is named is set *)
Asks == {"get", "where", "extra", "byid", "component", "all", "keep"}
Quiet == [][phase = "run" /\ Len(log') > Len(log) /\ log'[Len(log')].op \in Asks => part' = part]_vars
OneOnly == [][phase = "run" /\ Len(log') > Len(log) /\ log'[Len(log')].op \in {"set", "many"} =>
    Cardinality({j \in 1..Len(part.state) : part'.state[j] # part.state[j]})
    + Cardinality({j \in 1..3 : part'.spare[j] # part.spare[j]})
    + Cardinality({j \in 1..Len(part.added) : part'.added[j] # part.added[j]}) <= 1]_vars
(* what is restored is the state as it was kept, whatever the variables are by then *)
Back == [][phase = "run" /\ Len(log') > Len(log) /\ log'[Len(log')].op = "restore" =>
    part'.state = kept.state /\ part'.added = part.added /\ part'.spare = part.spare]_vars
=============================================================================
