------------------------------- MODULE Generate -------------------------------
(* Generating a program (P25): what the program of an instrument is depends on  *)
(* the instrument as it is when it is translated and on what is asked for, and  *)
(* on nothing done before: to other instruments, by other translators of this   *)
(* one, to copies of it or with its text. A translator keeps the program it     *)
(* made until it is told to make it again or to let go of it.                   *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    NInstr, Features,   \* which parts an instrument has
    Most,               \* of them
    Runtimes,           \* the runtime libraries of an instrument: a version
    Forms,              \* which program is asked for: flavour and options
    Edits,              \* what may be added; 2 is code, for which a translator has to be new
    MaxEdits, NTrans, MaxOps, Ops, Sampling

VARIABLES instr, trans, log, phase
vars == <<instr, trans, log, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S
None == -1
Code == 2

Init == instr = <<>> /\ trans = <<>> /\ log = <<>> /\ phase = "read"

Read ==
    /\ phase = "read" /\ Len(instr) < NInstr
    /\ \E f \in Pick({s \in SUBSET Features : Cardinality(s) <= Most}), r \in Pick(Runtimes) :
        instr' = Append(instr, [feats |-> f, rt |-> r, edits |-> <<>>])
    /\ phase' = IF Len(instr') = NInstr THEN "run" ELSE "read"
    /\ UNCHANGED <<trans, log>>

Now(t) == Len(instr[t.of].edits)
(* nothing was added since which the translator would have had to look at first *)
Fresh(t) == \A k \in 1..Now(t) : k > t.born => instr[t.of].edits[k] # Code
Can(t, again) == Fresh(t) \/ (t.kept # None /\ ~again)
(* the state of the instrument the program is of *)
Made(t, again) == IF t.kept # None /\ ~again THEN t.kept ELSE Now(t)

Calls == {c \in [k : 1..Len(trans), again : BOOLEAN] : Can(trans[c.k], c.again)}
Keepers == {k \in 1..Len(trans) : Can(trans[k], FALSE)}
Roomy == {i \in 1..NInstr : Len(instr[i].edits) < MaxEdits}

Note(op) == log' = Append(log, op)
Make ==
    /\ Len(trans) < NTrans
    /\ \E i \in Pick(1..NInstr), f \in Pick(Forms) :
        /\ trans' = Append(trans, [of |-> i, form |-> f, born |-> Len(instr[i].edits), kept |-> None])
        /\ Note([op |-> "make", i |-> i, f |-> f])
    /\ UNCHANGED instr
Translate ==
    \E c \in Pick(Calls) :
        /\ LET k == c.k again == c.again n == Made(trans[k], again) IN
            /\ trans' = [trans EXCEPT ![k].kept = n]
            /\ Note([op |-> "translate", k |-> k, again |-> again, n |-> n])
        /\ UNCHANGED instr
Save ==
    \E c \in Pick(Calls), close \in Pick(BOOLEAN), file \in Pick(BOOLEAN) :
        /\ LET k == c.k again == c.again n == Made(trans[k], again) IN
            /\ trans' = [trans EXCEPT ![k].kept = IF close THEN None ELSE n]
            /\ Note([op |-> "save", k |-> k, again |-> again, close |-> close, file |-> file, n |-> n])
        /\ UNCHANGED instr
Contents ==
    \E k \in Pick(Keepers) :
        /\ Note([op |-> "contents", k |-> k, n |-> Made(trans[k], FALSE)])
        /\ UNCHANGED <<instr, trans>>
Edit ==
    \E i \in Pick(Roomy), e \in Pick(Edits) :
        /\ instr' = [instr EXCEPT ![i].edits = Append(@, e)]
        /\ Note([op |-> "edit", i |-> i, e |-> e])
        /\ UNCHANGED trans
(* writing the instrument's text, or changing and translating a copy *)
Aside ==
    \E i \in Pick(1..NInstr), w \in Pick({"text", "copy", "hdf5", "flags"}) :
        /\ Note([op |-> w, i |-> i, n |-> Len(instr[i].edits)])
        /\ UNCHANGED <<instr, trans>>

(* what cannot be done now is left out *)
Step ==
    /\ phase = "run" /\ Len(log) < MaxOps /\ phase' = "run"
    /\ \E o \in Pick(Ops) :
        CASE o = "make" /\ Len(trans) < NTrans -> Make
          [] o = "translate" /\ Calls # {} -> Translate
          [] o = "save" /\ Calls # {} -> Save
          [] o = "contents" /\ Keepers # {} -> Contents
          [] o = "edit" /\ Roomy # {} -> Edit
          [] OTHER -> IF trans = <<>> THEN Make ELSE Aside
Done ==
    /\ phase = "run" /\ Len(log) = MaxOps
    /\ Emit([instr |-> instr, log |-> log])
    /\ phase' = "done" /\ UNCHANGED <<instr, trans, log>>
Next == Read \/ Step \/ Done
Spec == Init /\ [][Next]_vars

(* a kept program is of the instrument as it is or was *)
Past == \A k \in 1..Len(trans) : trans[k].kept \in {None} \cup (trans[k].born..Now(trans[k]))
(* made anew it is of the instrument as it is *)
Anew == \A k \in 1..Len(log) : (k = Len(log) /\ log[k].op \in {"translate", "save"} /\ log[k].again)
            => log[k].n = Now(trans[log[k].k])
(* only asking for it again changes which program is kept *)
Kept == [][\A k \in 1..Len(trans) : trans'[k].kept \notin {trans[k].kept, None} =>
            /\ log'[Len(log')].op \in {"translate", "save"} /\ log'[Len(log')].k = k
            /\ (log'[Len(log')].again \/ trans[k].kept = None)]_vars
(* translating changes no instrument *)
Same == [][\A i \in 1..Len(instr) : instr'[i] # instr[i] => log'[Len(log')].op = "edit"]_vars
=============================================================================
