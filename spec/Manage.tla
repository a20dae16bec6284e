-------------------------------- MODULE Manage --------------------------------
(* The management command (P24): the cache of downloaded files, and the        *)
(* configuration. Every process starts from the defaults, the configuration    *)
(* file and the environment; what is set lasts as long as the process, what is *)
(* saved is there for the next ones.                                           *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    Names, Versions,   \* what may be in the cache
    Odd,               \* names which are no entry of it, whatever is there
    Answers,           \* to the question whether to remove; "yes" stands for all which agree
    Keys, Default,     \* configuration keys, and those which have a default (value 0)
    EnvKeys,           \* keys the environment may give
    EnvValues,
    Values,
    Patterns,          \* what list may select: a pattern and the keys it matches
    MaxOps, Ops, Sampling

VARIABLES first, have, cache, env, file, mine, log, phase
vars == <<first, have, cache, env, file, mine, log, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S
None == -1
Entries == [name : Names, version : Versions]

(* a value: set by this process, given by the environment, saved, or the default *)
Value(k, m) == IF m[k] # None THEN m[k]
               ELSE IF env[k] # None THEN env[k]
               ELSE IF file[k] # None THEN file[k]
               ELSE IF k \in Default THEN 0 ELSE None
Now(m) == [k \in Keys |-> Value(k, m)]
Nothing == [k \in Keys |-> None]

Setup ==
    /\ phase = "setup"
    /\ cache' \in Pick(SUBSET Entries)
    /\ \E more \in Pick(SUBSET Names) : have' = more \cup {e.name : e \in cache'} \cup {"root"}
    /\ first' = [have |-> have', cache |-> cache']
    /\ env' \in Pick({e \in [Keys -> EnvValues \cup {None}] : \A k \in Keys : k \notin EnvKeys => e[k] = None})
    /\ phase' = "run" /\ UNCHANGED <<file, mine, log>>

(* folders of caches, maybe empty, within that of all *)
Cached(n) == n \in have
(* what a removal names: everything, one cache or a version of it *)
Named(n, v) == IF n = "" THEN cache ELSE IF v = "" THEN {e \in cache : e.name = n} ELSE {e \in cache : e.name = n /\ e.version = v}
Exists(n, v) == IF n = "" THEN "root" \in have ELSE IF v = "" THEN Cached(n) ELSE Named(n, v) # {}

Note(op) == log' = Append(log, op)
Remove ==
    /\ \E n \in Pick(Names \cup Odd \cup {""}), v \in Pick(Versions \cup Odd \cup {""}), force \in Pick(BOOLEAN), a \in Pick(Answers) :
        LET odd == n \in Odd \/ (n # "" /\ v \in Odd)
            vv == IF n = "" THEN "" ELSE v
            agreed == force \/ a = "yes"
            fails == IF odd THEN TRUE ELSE agreed /\ ~Exists(n, vv)
            done == agreed /\ ~fails
        IN /\ cache' = IF done THEN cache \ Named(n, vv) ELSE cache
           /\ have' = IF ~done THEN have ELSE IF n = "" THEN {} ELSE IF vv = "" THEN have \ {n} ELSE have
           /\ Note([op |-> "remove", n |-> n, v |-> vv, force |-> force, a |-> a, fails |-> fails])
    /\ UNCHANGED <<first, env, file, mine>>
List ==
    /\ \E n \in Pick(Names \cup Odd \cup {""}), long \in Pick(BOOLEAN) :
        /\ Note([op |-> "list", n |-> n, long |-> long, fails |-> n \in Odd \/ ~Cached(IF n = "" THEN "root" ELSE n),
                 is |-> IF n = "" THEN have \ {"root"} ELSE {e.version : e \in {x \in cache : x.name = n}}])
    /\ UNCHANGED <<first, have, cache, env, file, mine>>
Get ==
    /\ \E k \in Pick(Keys) : Note([op |-> "get", k |-> k, is |-> Value(k, mine)])
    /\ UNCHANGED <<first, have, cache, env, file, mine>>
Show ==
    /\ \E p \in Pick(Patterns) : Note([op |-> "show", p |-> p.p, is |-> Now(mine), keys |-> p.keys])
    /\ UNCHANGED <<first, have, cache, env, file, mine>>
Set ==
    /\ \E k \in Pick(Keys), v \in Pick(Values) :
        /\ mine' = [mine EXCEPT ![k] = v]
        /\ Note([op |-> "set", k |-> k, v |-> v])
    /\ UNCHANGED <<first, have, cache, env, file>>
Save ==
    /\ \E elsewhere \in Pick(BOOLEAN) :
        /\ file' = IF elsewhere THEN file ELSE Now(mine)
        /\ Note([op |-> "save", elsewhere |-> elsewhere, is |-> Now(mine)])
    /\ UNCHANGED <<first, have, cache, env, mine>>
Start ==
    /\ log # <<>> /\ log[Len(log)].op # "start"
    /\ mine' = Nothing /\ Note([op |-> "start"])
    /\ UNCHANGED <<first, have, cache, env, file>>
Do(op) == CASE op = "remove" -> Remove [] op = "list" -> List [] op = "get" -> Get [] op = "show" -> Show
            [] op = "set" -> Set [] op = "save" -> Save [] op = "start" -> Start
Run == phase = "run" /\ Len(log) < MaxOps /\ (\E op \in Pick(Ops) : Do(op)) /\ UNCHANGED phase
Done ==
    /\ phase = "run" /\ (Len(log) = MaxOps \/ (Sampling /\ Len(log) > 0 /\ RandomElement(1..4) = 1))
    /\ phase' = "done" /\ UNCHANGED <<first, have, cache, env, file, mine, log>>
    /\ Emit([first |-> first, env |-> env, log |-> log, have |-> have, left |-> cache])
Init == first = [have |-> {}, cache |-> {}] /\ have = {} /\ cache = {} /\ env = Nothing /\ file = Nothing /\ mine = Nothing /\ log = <<>> /\ phase = "setup"
Next == Setup \/ Run \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
OnlyRemoved == [][phase = "run" => cache' \subseteq cache /\ have' \subseteq have]_vars
Within == \A e \in cache : e.name \in have /\ "root" \in have
(* removing takes nothing but what it names *)
NothingElse == [][phase = "run" /\ Len(log') > Len(log) /\ log'[Len(log')].op = "remove" =>
                  \A e \in cache \ cache' : LET o == log'[Len(log')] IN o.n \in {"", e.name} /\ o.v \in {"", e.version}]_vars
(* what is saved is what the next process finds, but for what its environment gives *)
SavedStays == \A i \in 1..Len(log), j \in 1..Len(log) :
    (i < j /\ log[i].op = "save" /\ ~log[i].elsewhere /\ log[j].op = "get" /\ env[log[j].k] = None /\ (\A m \in i..j : log[m].op \notin {"set", "save"} \/ m = i))
        => log[j].is = log[i].is[log[j].k]
=============================================================================
