------------------------------- MODULE Command --------------------------------
(* The command line translators (P23). A call is a sequence of words; the     *)
(* files it finds are those of the folders given with -I in that order, the   *)
(* working directory, and the flavor's own. The named instrument file is      *)
(* taken from its path or else found like any other. One call writes one      *)
(* file, or none when something is wrong.                                     *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    Given,       \* folders which can be given with -I
    Kinds,       \* types of component, "R" is the instrument
    Words,       \* words of a call: records [w, x]
    MaxWords, MaxUses,
    Flavors,
    Provided,    \* sets of files a folder may have
    Dotted,      \* whether the name of the instrument's file has a dot before its suffix: nothing depends on it
    Sampling

VARIABLES has, uses, search, flavor, call, old, dotted, phase, result
vars == <<has, uses, search, flavor, call, old, dotted, phase, result>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

Places == Given \cup {"cwd", "home", "base", "seen"}
w(i) == call[i]
Is(word) == \E i \in 1..Len(call) : w(i).w = word
Sel(word) == SelectSeq(call, LAMBDA c : c.w = word)

(* where files are looked for by this call *)
Path == [i \in 1..Len(Sel("I")) |-> Sel("I")[i].x] \o <<"cwd", "base">>
FoundBy(f, path) == LET h == {k \in 1..Len(path) : f \in has[path[k]]} IN
                IF h = {} THEN "none" ELSE path[CHOOSE k \in h : \A j \in h : k <= j]
(* the instrument: at its path, or found by its name *)
FilePlace == Sel("file")[1].x
Instrument == IF FilePlace = "h5" THEN "stored"
              ELSE LET there == IF FilePlace = "home" THEN "home" ELSE "cwd" IN
                   IF "R" \in has[there] THEN there ELSE FoundBy("R", Path)
(* the definition of each component: a SEARCH in the instrument comes before all folders of the call *)
Used(i) == IF Instrument = "stored" THEN "stored"
           ELSE FoundBy(uses[i], IF search THEN <<"seen">> \o Path ELSE Path)
Output == IF Sel("o") = <<>> THEN IF FilePlace \in {"home", "h5"} THEN "beside" ELSE "here"
          ELSE Sel("o")[Len(Sel("o"))].x

Wrong ==
    \/ Len(Sel("file")) # 1
    \/ Is("version") \/ Is("unknown")
    \/ Instrument = "none"
    \/ \E i \in 1..Len(uses) : Used(i) = "none"
    \/ Output = "nowhere"

Result ==
    IF Wrong THEN [wrong |-> TRUE]
    ELSE [wrong |-> FALSE, instr |-> Instrument, comps |-> [i \in 1..Len(uses) |-> Used(i)], out |-> Output,
          main |-> ~Is("nomain"), trace |-> Is("trace"), portable |-> Is("portable"), source |-> Is("source")]

Some(S) == IF Sampling THEN {RandomElement(S)} ELSE S
Folders == IF Sampling THEN {[p \in Places |-> RandomElement(Provided)]} ELSE [Places -> Provided]
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Seqs(S, n - 1), x \in Some(S)}

Setup ==
    /\ phase = "setup"
    /\ \E h \in Folders : has' = [h EXCEPT !["base"] = @ \ {"R"}, !["seen"] = @ \ {"R"}]
    /\ \E n \in Some(0..MaxUses) : uses' \in Seqs(Kinds \ {"R"}, n)
    /\ search' \in Some(BOOLEAN) /\ flavor' \in Some(Flavors) /\ old' \in Some(BOOLEAN) /\ dotted' \in Some(Dotted)
    /\ phase' = "call" /\ UNCHANGED <<call, result>>
Say ==
    /\ phase = "call" /\ Len(call) < MaxWords
    /\ \E c \in Some(Words) : call' = Append(call, c)
    /\ UNCHANGED <<has, uses, search, flavor, old, dotted, phase, result>>
Go ==
    /\ phase = "call" /\ Len(call) > 0 /\ (Sampling => Len(call) = MaxWords \/ RandomElement(1..5) = 1)
    /\ result' = Result /\ phase' = "done"
    /\ Emit([has |-> has, uses |-> uses, search |-> search, flavor |-> flavor, old |-> old, dotted |-> dotted, call |-> call, result |-> Result])
    /\ UNCHANGED <<has, uses, search, flavor, call, old, dotted>>
Init == has = [p \in Places |-> {}] /\ uses = <<>> /\ search = FALSE /\ flavor = "" /\ call = <<>> /\ old = FALSE /\ dotted = FALSE
        /\ phase = "setup" /\ result = [wrong |-> TRUE]
Next == Setup \/ Say \/ Go
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Made == phase = "done" /\ ~result.wrong
(* what is used is provided where it is taken from, and by nothing before *)
Provides == Made /\ result.instr # "stored" => \A i \in 1..Len(uses) :
    /\ uses[i] \in has[result.comps[i]]
    /\ search /\ uses[i] \in has["seen"] => result.comps[i] = "seen"
    /\ result.comps[i] = "base" => uses[i] \notin has["cwd"]
(* the same type is the same definition everywhere *)
OneDefinition == Made => \A i, j \in 1..Len(uses) : uses[i] = uses[j] => result.comps[i] = result.comps[j]
(* options stand for themselves wherever they are *)
OrderFree == phase = "done" => \A word \in {"trace", "portable", "source"} : Made => (result[word] <=> Is(word))
=============================================================================
