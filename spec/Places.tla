-------------------------------- MODULE Places --------------------------------
(* Where in a directory a file asked for is (P13). A directory source offers *)
(* the files below it, at whatever depth. What is asked for is a name, maybe  *)
(* after some folders: the file right there is meant, else the only one whose *)
(* path ends so. One of several is never taken: the question is refused, and  *)
(* no other source answers it instead.                                        *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    Dirs,        \* folders, as sequences of names
    Names,       \* names of files
    Asked,       \* questions, as sequences: folders and a name
    Backup,      \* names which a second, lower source offers
    MaxFiles, MaxOps,
    Sampling

VARIABLES files, log, phase
vars == <<files, log, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

All == {d \o <<n>> : d \in Dirs, n \in Names}
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
EndsWith(f, q) == Len(q) <= Len(f) /\ SubSeq(f, Len(f) - Len(q) + 1, Len(f)) = q
(* a file's path is no folder of another one's *)
Possible(s) == \A f, g \in s : f # g => ~IsPrefix(f, g)

Below(q, s) == {f \in s : EndsWith(f, q)}
Answer(q, s) ==
    IF q \in s THEN [is |-> "file", f |-> q]
    ELSE IF Cardinality(Below(q, s)) = 1 THEN [is |-> "file", f |-> CHOOSE f \in Below(q, s) : TRUE]
    ELSE IF Below(q, s) # {} THEN [is |-> "several", f |-> <<>>]
    ELSE IF q[Len(q)] \in Backup /\ Len(q) = 1 THEN [is |-> "backup", f |-> q]
    ELSE [is |-> "none", f |-> <<>>]
Answers(s) == {[q |-> q, a |-> Answer(q, s), n |-> Cardinality(Below(q, s))] : q \in Asked}

Change ==
    /\ phase = "run" /\ Len(log) < MaxOps
    /\ \E f \in Pick(All) :
        /\ files' = IF f \in files THEN files \ {f} ELSE files \cup {f}
        /\ Possible(files') /\ Cardinality(files') <= MaxFiles
        /\ log' = Append(log, [f |-> f, there |-> f \in files', answers |-> Answers(files')])
    /\ UNCHANGED phase
Setup ==
    /\ phase = "setup"
    /\ files' \in (IF Sampling THEN {{}} ELSE
                   {s \in {{f[i] : i \in 1..MaxFiles} : f \in [1..MaxFiles -> All]} \cup {{}} : Possible(s)})
    /\ log' = IF Sampling THEN <<>> ELSE <<[f |-> <<>>, there |-> FALSE, answers |-> Answers(files')]>>
    /\ phase' = "run"
Done ==
    /\ phase = "run" /\ (~Sampling \/ Len(log) = MaxOps)
    /\ phase' = "done" /\ Emit([files |-> files, log |-> log])
    /\ UNCHANGED <<files, log>>
Init == files = {} /\ log = <<>> /\ phase = "setup"
Next == Setup \/ (Sampling /\ Change) \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* an answer is a file which is there and ends as asked, and it is the only one unless it is the one asked for to the letter *)
Sound == \A q \in Asked : LET a == Answer(q, files) IN
    a.is = "file" => a.f \in files /\ EndsWith(a.f, q) /\ (a.f = q \/ \A g \in files : EndsWith(g, q) => g = a.f)
(* a file can always be asked for by its path *)
Reachable == \A f \in files : Answer(f, files) = [is |-> "file", f |-> f]
(* another source answers only what this one knows nothing of *)
NoSecondGuess == \A q \in Asked : Answer(q, files).is \in {"backup", "none"} <=> Below(q, files) = {}
=============================================================================
