------------------------------ MODULE Includes ------------------------------
(* Libraries and files which code includes (P12). A library has a header    *)
(* and a source; both, and files, can include libraries and files. A file   *)
(* is inserted where it is included. The header and the source of each      *)
(* library which is needed are emitted once, after everything they pull in. *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    N,           \* libraries and files, numbered so that what a node includes has a larger number
    MaxItems,    \* of one header, source, file or block
    MaxBlocks,
    Places,      \* where blocks of code are
    Sampling

VARIABLES kind, hinc, sinc, blocks, out, phase

vars == <<kind, hinc, sinc, blocks, out, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

Nodes == 1..N
Lists(S) == {<<>>} \cup UNION {[1..k -> S] : k \in 1..MaxItems}
ListOver(S) == IF S = {} THEN {<<>>}
               ELSE IF Sampling THEN LET k == RandomElement(0..MaxItems) IN {[j \in 1..k |-> RandomElement(S)]}
               ELSE {q \in Lists(S) : \A i, j \in 1..Len(q) : i # j => q[i] # q[j]}

(* nodes are described from the last to the first *)
AddNode ==
    /\ phase = "nodes" /\ Len(kind) < N
    /\ LET n == N - Len(kind) IN
       \E k \in Pick({"lib", "file"}), h \in ListOver((n + 1)..N), s \in ListOver((n + 1)..N) :
        /\ k = "file" => s = <<>> \/ Sampling
        /\ kind' = <<k>> \o kind /\ hinc' = <<h>> \o hinc /\ sinc' = <<IF k = "file" THEN <<>> ELSE s>> \o sinc
    /\ UNCHANGED <<blocks, out, phase>>
AddBlock ==
    /\ phase = "nodes" /\ Len(kind) = N /\ Len(blocks) < MaxBlocks
    /\ \E p \in Pick(Places \ {blocks[i].at : i \in 1..Len(blocks)}), q \in ListOver(Nodes) :
        blocks' = Append(blocks, [at |-> p, inc |-> q])
    /\ UNCHANGED <<kind, hinc, sinc, out, phase>>

(* what is pulled in by a list of includes: the libraries, also those of files *)
RECURSIVE Libs(_), LibsFrom(_, _)
LibsFrom(q, i) == IF i > Len(q) THEN {}
                  ELSE LibsFrom(q, i + 1) \cup (IF kind[q[i]] = "lib" THEN {q[i]} ELSE Libs(hinc[q[i]]))
Libs(q) == LibsFrom(q, 1)
(* what is found where the list stands: the files, nested *)
RECURSIVE Inserted(_)
Inserted(q) == IF q = <<>> THEN <<>>
               ELSE (IF kind[q[1]] = "file" THEN <<[b |-> TRUE, n |-> q[1]]>> \o Inserted(hinc[q[1]]) \o <<[b |-> FALSE, n |-> q[1]]>>
                     ELSE <<>>) \o Inserted(Tail(q))

RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {Libs(hinc[l]) \cup Libs(sinc[l]) : l \in S} IN IF T = S THEN S ELSE Closure(T)
Needed == Closure(UNION {Libs(blocks[i].inc) : i \in 1..Len(blocks)})

Unit(p, l) == [p |-> p, l |-> l]
Units == {Unit("h", l) : l \in Needed} \cup {Unit("s", l) : l \in Needed}
Before(u) == IF u.p = "h" THEN {Unit("h", l) : l \in Libs(hinc[u.l])}
             ELSE {Unit("h", u.l)} \cup {Unit(p, l) : p \in {"h", "s"}, l \in Libs(hinc[u.l]) \cup Libs(sinc[u.l])}

Start == /\ phase = "nodes" /\ Len(kind) = N /\ Len(blocks) >= 1
         /\ phase' = "emit" /\ UNCHANGED <<kind, hinc, sinc, blocks, out>>
Range(q) == {q[i] : i \in 1..Len(q)}
EmitUnit ==
    /\ phase = "emit"
    /\ \E u \in Units \ Range(out) :
        /\ Before(u) \subseteq Range(out)
        /\ ~Sampling => \A v \in Units \ Range(out) :   \* one order is enough to model check the outcome
              Before(v) \subseteq Range(out) => (u.l < v.l \/ (u.l = v.l /\ (u.p = "h" \/ v.p = "s")))
        /\ out' = Append(out, u)
    /\ UNCHANGED <<kind, hinc, sinc, blocks, phase>>
Done ==
    /\ phase = "emit" /\ Range(out) = Units
    /\ phase' = "done"
    /\ Emit([kind |-> kind, hinc |-> hinc, sinc |-> sinc, blocks |-> blocks,
             units |-> {[u |-> u, before |-> Before(u), has |-> Inserted(IF u.p = "h" THEN hinc[u.l] ELSE sinc[u.l])] : u \in Units},
             bodies |-> [i \in 1..Len(blocks) |-> Inserted(blocks[i].inc)]])
    /\ UNCHANGED <<kind, hinc, sinc, blocks, out>>

Init == kind = <<>> /\ hinc = <<>> /\ sinc = <<>> /\ blocks = <<>> /\ out = <<>> /\ phase = "nodes"
Next == AddNode \/ AddBlock \/ Start \/ EmitUnit \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Once == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
AfterItsNeeds == \A i \in 1..Len(out) : \A u \in Before(out[i]) : \E j \in 1..(i - 1) : out[j] = u
(* a next unit can always be emitted until all are *)
NeverStuck == phase = "emit" /\ Range(out) # Units => \E u \in Units \ Range(out) : Before(u) \subseteq Range(out)
OnlyNeeded == phase = "done" => \A u \in Range(out) :
    \/ \E i \in 1..Len(blocks) : u.l \in Libs(blocks[i].inc)
    \/ \E v \in Range(out) : u.l \in Libs(hinc[v.l]) \cup Libs(sinc[v.l])
=============================================================================
