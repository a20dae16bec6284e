-------------------------------- MODULE Flags --------------------------------
(* What the compiler is told (P19). Definitions, instruments and included   *)
(* instruments state flags; they are collected while the text is read, each *)
(* definition once, when it is first needed. Every different flag is used   *)
(* once, in that order, with what stands for something else replaced.       *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    MaxFlags,    \* different flags which can be stated
    MaxPieces,   \* pieces one of them is made of
    Pieces,      \* what they are made of: [k, i] of the kinds below
    NTypes, MaxItems, MaxMore,
    Incls,       \* subset of BOOLEAN: whether there can be included instruments
    Targets,     \* a set of [mpi, acc, nexus]
    Sampling

VARIABLES pool, types, own, body, flags, seen, more, target, phase
vars == <<pool, types, own, body, flags, seen, more, target, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

(* --- what a flag is worth ---------------------------------------------- *)
(* text, a space, the environment's value, a file's path, a word to be configured, a command's output *)
Sp == <<"sp", 0>>
EnvVal(i) == CASE i = 1 -> <<<<"e", 1>>>> [] i = 2 -> <<<<"e", 2>>, Sp, <<"e", 3>>>> [] OTHER -> <<>>   \* 3 is empty, 4 not there
KeyVal(i) == CASE i = 1 -> <<<<"nexus", 1>>, Sp, <<"nexus", 2>>>>     \* two words
               [] i = 2 -> <<<<"gsl", 1>>>>
               [] i = 3 -> <<<<"lib", 1>>>>                           \* a library of that name
               [] i = 4 -> <<<<"here", 1>>>>                          \* the old name of the library's folder
               [] i = 5 -> <<<<"k", 5>>>>                             \* no word which is known: as it is
Simple(p) ==
    CASE p.k = "t" -> <<<<"t", p.i>>>>
      [] p.k = "sp" -> <<Sp>>
      [] p.k = "env" -> EnvVal(p.i)
      [] p.k = "path" -> <<<<"p", p.i>>>>
(* a sequence of words: each of them is a sequence of atoms *)
RECURSIVE Split(_, _, _)
Split(v, word, words) ==
    IF Len(v) = 0 THEN (IF Len(word) = 0 THEN words ELSE Append(words, word))
    ELSE IF v[1] = Sp THEN Split(Tail(v), <<>>, IF Len(word) = 0 THEN words ELSE Append(words, word))
    ELSE Split(Tail(v), Append(word, v[1]), words)
Words(v) == Split(v, <<>>, <<>>)
RECURSIVE Join(_)
Join(ws) == IF Len(ws) = 0 THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<Sp>> \o Join(Tail(ws))
(* commands repeat their words; i says which words *)
CmdArg(i) ==
    CASE i = 1 -> <<[k |-> "t", i |-> 6]>>
      [] i = 2 -> <<[k |-> "t", i |-> 7], [k |-> "env", i |-> 2], [k |-> "sp", i |-> 0], [k |-> "t", i |-> 6]>>
      [] i = 3 -> <<[k |-> "env", i |-> 3]>>
      [] i = 4 -> <<[k |-> "path", i |-> 1], [k |-> "sp", i |-> 0], [k |-> "path", i |-> 2]>>
      [] OTHER -> <<>>
RECURSIVE Flat(_)
Flat(qs) == IF Len(qs) = 0 THEN <<>> ELSE qs[1] \o Flat(Tail(qs))
All(q, F(_)) == Flat([x \in 1..Len(q) |-> F(q[x])])
Value(p) == IF p.k = "key" THEN KeyVal(p.i) ELSE IF p.k = "cmd" THEN Join(Words(All(CmdArg(p.i), Simple))) ELSE Simple(p)
Decoded(f) == All(f, Value)
(* commands which fail, or say more than one line *)
Fails(f) == \E x \in 1..Len(f) : f[x].k = "cmd" /\ f[x].i \in {8, 9}

(* --- flags ------------------------------------------------------------- *)
MakeFlag ==
    /\ phase = "flags"
    /\ \/ /\ Len(pool) > 0 /\ Len(pool[Len(pool)]) < MaxPieces
          /\ \E p \in Pick(Pieces) : pool' = [pool EXCEPT ![Len(pool)] = Append(@, p)]
       \/ /\ Len(pool) < MaxFlags
          /\ Len(pool) > 0 => Len(pool[Len(pool)]) > 0
          /\ \E p \in Pick(Pieces) : pool' = Append(pool, <<p>>)
    /\ UNCHANGED <<types, own, body, flags, seen, more, target, phase>>
EndFlags == phase = "flags" /\ Len(pool) > 0 /\ phase' = "types" /\ UNCHANGED <<pool, types, own, body, flags, seen, more, target>>

(* --- definitions ------------------------------------------------------- *)
MakeType ==
    /\ phase = "types" /\ Len(types) < NTypes
    /\ \E b \in Pick(0..Len(types)), d \in Pick(0..Len(pool)) : types' = Append(types, [base |-> b, dep |-> d])
    /\ phase' = IF Len(types) + 1 = NTypes THEN "own" ELSE phase
    /\ UNCHANGED <<pool, own, body, flags, seen, more, target>>

(* --- the instrument; what it includes is read where it is included ------ *)
State(d) == \E f \in Pick(0..Len(pool)) : d' = f
Own == phase = "own" /\ State(own) /\ phase' = "body" /\ UNCHANGED <<pool, types, body, flags, seen, more, target>>
RECURSIVE Read(_, _)
(* <<flags, seen>> after a definition has been read for whoever needs it *)
Read(fs, t) ==
    IF t = 0 \/ t \in fs[2] THEN fs
    ELSE LET before == Read(fs, types[t].base)
         IN <<IF types[t].dep = 0 THEN before[1] ELSE Append(before[1], types[t].dep), before[2] \cup {t}>>
Component ==
    /\ phase = "body" /\ Len(body) < MaxItems
    /\ \E t \in Pick(1..NTypes), c \in Pick({FALSE, FALSE, TRUE}), r \in Pick(BOOLEAN), in \in Pick({x \in BOOLEAN : x => (Len(body) > 0 /\ body[Len(body)].incl)}) :
        LET fs == Read(<<flags, seen>>, t)
        IN /\ body' = Append(body, [incl |-> in, ty |-> t, cpu |-> c, gone |-> r /\ in, d |-> 0])
           /\ flags' = fs[1] /\ seen' = fs[2]
    /\ UNCHANGED <<pool, types, own, more, target, phase>>
(* starts an included instrument, which the items that follow with incl are in *)
Include ==
    /\ phase = "body" /\ Len(body) < MaxItems /\ TRUE \in Incls
    /\ \E d \in Pick(0..Len(pool)) : body' = Append(body, [incl |-> TRUE, ty |-> 0, cpu |-> FALSE, gone |-> FALSE, d |-> d])
    /\ UNCHANGED <<pool, types, own, flags, seen, more, target, phase>>
EndBody ==
    /\ phase = "body" /\ Len(body) > 0 /\ body[1].incl = (body[1].ty = 0)
    /\ Sampling => Len(body) = MaxItems \/ RandomElement(1..4) = 1
    /\ \E x \in 1..Len(body) : body[x].ty # 0 /\ ~body[x].gone
    /\ phase' = "more" /\ UNCHANGED <<pool, types, own, body, flags, seen, more, target>>
(* stated from outside afterwards *)
More ==
    /\ phase = "more" /\ Len(more) < MaxMore
    /\ \E d \in Pick(1..Len(pool)) : more' = Append(more, d)
    /\ UNCHANGED <<pool, types, own, body, flags, seen, target, phase>>

RECURSIVE Once(_)
Once(q) == IF Len(q) = 0 THEN <<>>
           ELSE LET x == q[Len(q)] front == Once(SubSeq(q, 1, Len(q) - 1))
                IN IF \E j \in 1..Len(front) : front[j] = x THEN front ELSE Append(front, x)
Given(q) == SelectSeq(q, LAMBDA d : d # 0)
InclOwn == [x \in 1..Len(body) |-> body[x].d]
Stated(u) == LET q == Given(<<own>> \o InclOwn) \o flags \o more IN [x \in 1..Len(q) |-> pool[q[x]]]
Unique(u) == Once(Stated(0))
Funnel(u) == \E x \in 1..Len(body) : body[x].cpu /\ ~body[x].gone

(* --- the command ------------------------------------------------------- *)
CC(t) == IF t.acc THEN "acc" ELSE IF t.mpi THEN "mpicc" ELSE "cc"
Before(t) == (IF t.acc THEN <<"accflags">> ELSE <<"ccflags">>) \o (IF t.mpi THEN <<"mpiflags">> ELSE <<>>) \o (IF t.nexus THEN <<"nexusflags">> ELSE <<>>)
             \o (IF t.acc /\ t.nexus THEN <<"gnuc">> ELSE <<>>)
Choose ==
    /\ phase = "more"
    /\ \E t \in Pick(Targets) :
        LET us == Unique(0) ds == [x \in 1..Len(us) |-> Decoded(us[x])] IN
        /\ target' = t
        /\ Emit([pool |-> pool, types |-> types, own |-> own, body |-> body, more |-> more, target |-> t,
                 raw |-> us, decoded |-> ds, funnel |-> Funnel(0), fails |-> \E x \in 1..Len(us) : Fails(us[x]),
                 words |-> All(us, LAMBDA f : Words(Decoded(f))), cc |-> CC(t), before |-> Before(t)])
    /\ phase' = "done"
    /\ UNCHANGED <<pool, types, own, body, flags, seen, more>>

Init == pool = <<>> /\ types = <<>> /\ own = 0 /\ body = <<>> /\ flags = <<>> /\ seen = {} /\ more = <<>>
        /\ target = [mpi |-> FALSE, acc |-> FALSE, nexus |-> FALSE] /\ phase = "flags"
Next == MakeFlag \/ EndFlags \/ MakeType \/ Own \/ Component \/ Include \/ EndBody \/ More \/ Choose
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
RECURSIVE Needed(_)
Needed(t) == IF t = 0 THEN {} ELSE {t} \cup Needed(types[t].base)
(* what was read is what is used, and what that is made from *)
ReadWhatIsUsed == seen = UNION {Needed(body[x].ty) : x \in 1..Len(body)}
(* every flag which is stated by something that was read is there, and no other; none twice *)
NothingElse ==
    phase = "done" =>
        /\ {Unique(0)[x] : x \in 1..Len(Unique(0))} =
             {pool[d] : d \in ({own} \cup {types[t].dep : t \in seen} \cup {body[x].d : x \in 1..Len(body)} \cup {more[x] : x \in 1..Len(more)}) \ {0}}
        /\ \A x, y \in 1..Len(Unique(0)) : x # y => Unique(0)[x] # Unique(0)[y]
(* what comes first is stated first: a flag is not behind one which is only stated after it *)
InOrder ==
    phase = "done" =>
        LET s == Stated(0) u == Unique(0) First(f) == CHOOSE x \in 1..Len(s) : s[x] = f /\ \A y \in 1..(x - 1) : s[y] # f
        IN \A x, y \in 1..Len(u) : x < y => First(u[x]) < First(u[y])
(* the words of the flags are those of all of them together, when something is between them *)
Apart == phase = "done" =>
    LET u == Unique(0) IN Words(All(u, LAMBDA f : Decoded(f) \o <<Sp>>)) = All(u, LAMBDA f : Words(Decoded(f)))
=============================================================================
