----------------------------- MODULE Lifecycle -----------------------------
(* What a compiled program runs and what its code sees (P11). Component     *)
(* types have parameters of every kind, private variables and per-particle  *)
(* variables; instances set parameters to literals, to instrument           *)
(* parameters, to expressions of them or to variables of the instrument.    *)
(* The program initialises the instrument, sets up every instance, runs the *)
(* INITIALIZE code of each, transports particles, saves, finishes.          *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    MaxTypes, MaxInst, MaxPars,
    Kinds,       \* subset of {"num", "int", "str", "vec", "ivec"}
    Sources,     \* subset of {"dflt", "lit", "ipar", "expr", "glob"}
    Values,      \* literal numbers
    StrIds,      \* literal strings, by number
    Vectors,     \* literal vectors
    SectionSets, \* the sets of sections types may state: of "init", "trace", "save", "final", "disp"
    Privates,    \* the sequences of private variables types may declare: [k |-> kind, i |-> initial values]
    Users,       \* numbers of per-particle variables of a type
    Rays,
    Sampling

VARIABLES types, insts, instr, pc, ienv, state, shown, log

vars == <<types, insts, instr, pc, ienv, state, shown, log>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

None == <<>>
LitOf(k) == CASE k \in {"num", "int"} -> {<<v>> : v \in Values}
              [] k = "str" -> {<<v>> : v \in StrIds}
              [] k \in {"vec", "ivec"} -> Vectors

(* ---- the program is chosen step by step ---- *)
Defaults(k) == LitOf(k) \cup (IF k \in {"vec", "ivec"} THEN {<<>>} ELSE {})   \* a vector can be NULL
Par(k) == {[k |-> k, has |-> h, d |-> IF h THEN d ELSE None] : h \in Pick(BOOLEAN), d \in Pick(Defaults(k))}
AddType ==
    /\ pc = "types" /\ Len(types) < MaxTypes
    /\ \E ss \in Pick(SectionSets), pv \in Pick(Privates), u \in Pick(Users), n \in Pick(IF MaxPars = 1 THEN {1} ELSE 0..MaxPars) :
        \E ps \in IF n = 0 THEN {<<>>}
                  ELSE IF MaxPars = 1 THEN {<<p>> : p \in UNION {Par(k) : k \in Kinds}}
                  ELSE {[j \in 1..n |-> CHOOSE p \in Par(RandomElement(Kinds)) : TRUE]} :
            types' = Append(types, [pars |-> ps, secs |-> ss, priv |-> pv, user |-> u])
    /\ UNCHANGED <<insts, instr, pc, ienv, state, shown, log>>

(* what an instance may give for a parameter; "dflt" is not to state it *)
SourceOf(p) ==
    LET ok(s) == CASE s = "dflt" -> p.has
                   [] s \in {"lit", "glob"} -> TRUE
                   [] s = "ipar" -> p.k \notin {"vec", "ivec"}
                   [] s = "expr" -> p.k # "str"
    IN {[s |-> s, v |-> v] : s \in Pick({x \in Sources : ok(x)}), v \in Pick(LitOf(p.k))}
Canon(p, g) == IF g.s \in {"lit", "expr"} THEN g ELSE [g EXCEPT !.v = None]
AddInst ==
    /\ pc = "insts" /\ Len(insts) < MaxInst
    /\ \E t \in Pick(1..Len(types)) :
        LET ps == types[t].pars IN
        \E g \in IF Len(ps) = 0 THEN {<<>>}
                 ELSE IF Len(ps) = 1 THEN {<<Canon(ps[1], x)>> : x \in SourceOf(ps[1])}
                 ELSE {[j \in 1..Len(ps) |-> Canon(ps[j], CHOOSE x \in SourceOf(ps[j]) : TRUE)]} :
            insts' = Append(insts, [t |-> t, give |-> g])
    /\ UNCHANGED <<types, instr, pc, ienv, state, shown, log>>

(* the instrument: an int, a number and a string parameter, with defaults, some given at run time *)
SetInstr ==
    /\ pc = "instr"
    /\ \E ss \in Pick(SUBSET {"init", "save", "final"}), dv \in Pick(Values), ds \in Pick(StrIds), bump \in Pick(BOOLEAN),
         given \in Pick(SUBSET {"pi", "pd", "ps"}), rv \in Pick(Values), rs \in Pick(StrIds) :
        instr' = [secs |-> ss, d |-> [pi |-> dv, pd |-> dv + 1, ps |-> ds], bump |-> bump /\ "init" \in ss,
                  run |-> [pi |-> IF "pi" \in given THEN rv ELSE dv, pd |-> IF "pd" \in given THEN rv - 1 ELSE dv + 1,
                           ps |-> IF "ps" \in given THEN rs ELSE ds],
                  given |-> given]
    /\ pc' = "start"
    /\ UNCHANGED <<types, insts, ienv, state, shown, log>>

Advance ==
    /\ \/ pc = "types" /\ Len(types) >= 1 /\ (Sampling => RandomElement(1..2) = 1 \/ Len(types) = MaxTypes) /\ pc' = "insts"
       \/ pc = "insts" /\ Len(insts) >= 1 /\ (Sampling => RandomElement(1..3) = 1 \/ Len(insts) = MaxInst) /\ pc' = "instr"
    /\ UNCHANGED <<types, insts, instr, ienv, state, shown, log>>

(* ---- running it ---- *)
GlobVec == <<4, 5, 6>>
Value(p, g) ==
    LET lit == g.v IN
    CASE g.s = "dflt" -> p.d
      [] g.s = "lit" -> g.v
      [] g.s = "ipar" -> <<CASE p.k = "num" -> ienv.pd [] p.k = "int" -> ienv.pi [] p.k = "str" -> ienv.ps>>
      [] g.s = "expr" -> [j \in 1..Len(lit) |-> lit[j] + 2*ienv.pi]
      [] g.s = "glob" -> CASE p.k \in {"num", "int"} -> <<ienv.g>> [] p.k = "str" -> <<1>> [] p.k \in {"vec", "ivec"} -> GlobVec

Inst(i) == insts[i]
Type(i) == types[insts[i].t]
Has(i, s) == s \in Type(i).secs
INote(ph) == [ph |-> ph, who |-> 0, vals |-> <<<<ienv.pi>>, <<ienv.pd>>, <<ienv.ps>>>>, priv |-> <<>>, user |-> <<>>]

Start ==
    /\ pc = "start"
    /\ ienv' = [pi |-> instr.run.pi, pd |-> instr.run.pd, ps |-> instr.run.ps, g |-> 7]
    /\ pc' = "init"
    /\ UNCHANGED <<types, insts, instr, state, shown, log>>
InitInstr ==
    /\ pc = "init"
    /\ log' = IF "init" \in instr.secs THEN <<INote("init")>> ELSE <<>>
    /\ ienv' = IF instr.bump THEN [ienv EXCEPT !.pi = @ + 1, !.g = 3*ienv.pd] ELSE ienv
    /\ pc' = "setpos"
    /\ UNCHANGED <<types, insts, instr, state, shown>>
SetUp ==
    /\ pc = "setpos"
    /\ state' = [i \in 1..Len(insts) |->
                    [vals |-> [j \in 1..Len(Type(i).pars) |-> Value(Type(i).pars[j], Inst(i).give[j])],
                     priv |-> [j \in 1..Len(Type(i).priv) |-> Type(i).priv[j].i]]]
    /\ pc' = "comps"
    /\ UNCHANGED <<types, insts, instr, ienv, shown, log>>

(* INITIALIZE code of a type changes its first parameter, unless that is a string, or an array of the instrument *)
Changes(i) == LET ps == Type(i).pars IN
    Len(ps) > 0 /\ ps[1].k # "str" /\ Len(state[i].vals[1]) > 0 /\ ~(ps[1].k \in {"vec", "ivec"} /\ Inst(i).give[1].s = "glob")
(* every instance runs a section, one after the other *)
RECURSIVE RunAll(_, _, _, _, _)
RunAll(ph, i, st, uv, lg) ==
    IF i > Len(insts) THEN [st |-> st, uv |-> uv, lg |-> lg]
    ELSE IF ~Has(i, ph) THEN RunAll(ph, i + 1, st, uv, lg)
    ELSE LET n == [ph |-> ph, who |-> i, vals |-> st[i].vals, priv |-> st[i].priv, user |-> IF ph = "trace" THEN uv[i] ELSE <<>>]
             p2 == [j \in 1..Len(st[i].priv) |-> [st[i].priv[j] EXCEPT ![1] = @ + 1]]
             v2 == IF ph = "init" /\ Changes(i) THEN [st[i].vals EXCEPT ![1] = [@ EXCEPT ![1] = @ + 100]] ELSE st[i].vals
             u2 == IF ph = "trace" THEN [uv EXCEPT ![i] = [j \in 1..Len(uv[i]) |-> 10*i + j]] ELSE uv
         IN RunAll(ph, i + 1, [st EXCEPT ![i] = [vals |-> v2, priv |-> p2]], u2, Append(lg, n))
Fresh == [i \in 1..Len(insts) |-> [j \in 1..Type(i).user |-> 0]]

(* showing the instrument names every instance, whether or not it has something to show *)
RECURSIVE ShowAll(_, _, _)
ShowAll(i, st, lg) ==
    IF i > Len(insts) THEN lg
    ELSE LET l1 == Append(lg, [ph |-> "name", who |-> i, vals |-> <<>>, priv |-> <<>>, user |-> <<>>])
             l2 == IF Has(i, "disp") THEN Append(l1, [ph |-> "disp", who |-> i, vals |-> st[i].vals, priv |-> st[i].priv, user |-> <<>>]) ELSE l1
         IN ShowAll(i + 1, st, l2)
Comps ==
    /\ pc = "comps"
    /\ LET r == RunAll("init", 1, state, Fresh, log) IN state' = r.st /\ log' = r.lg /\ shown' = ShowAll(1, r.st, <<>>)
    /\ pc' = "rays"
    /\ UNCHANGED <<types, insts, instr, ienv>>
RECURSIVE RunRays(_, _, _)
RunRays(n, st, lg) == IF n = 0 THEN [st |-> st, lg |-> lg]
                      ELSE LET r == RunAll("trace", 1, st, Fresh, lg) IN RunRays(n - 1, r.st, r.lg)
Trace ==
    /\ pc = "rays"
    /\ LET r == RunRays(Rays, state, log) IN state' = r.st /\ log' = r.lg
    /\ pc' = "save"
    /\ UNCHANGED <<types, insts, instr, ienv, shown>>
SaveOf(st, lg) == RunAll("save", 1, st, Fresh, IF "save" \in instr.secs THEN Append(lg, INote("save")) ELSE lg)
Save ==
    /\ pc = "save"
    /\ LET r == SaveOf(state, log) IN state' = r.st /\ log' = r.lg
    /\ pc' = "finally"
    /\ UNCHANGED <<types, insts, instr, ienv, shown>>
(* what ends the program saves once more before *)
Finally ==
    /\ pc = "finally"
    /\ LET s == SaveOf(state, log)
           r == RunAll("final", 1, s.st, Fresh, IF "final" \in instr.secs THEN Append(s.lg, INote("final")) ELSE s.lg)
       IN state' = r.st /\ log' = r.lg
    /\ pc' = "end"
    /\ UNCHANGED <<types, insts, instr, ienv, shown>>

Done ==
    /\ pc = "end"
    /\ pc' = "done"
    /\ Emit([types |-> types, insts |-> insts, instr |-> instr, rays |-> Rays, log |-> log, shown |-> shown])
    /\ UNCHANGED <<types, insts, instr, ienv, state, shown, log>>

Init == /\ types = <<>> /\ insts = <<>> /\ instr = None /\ pc = "types" /\ ienv = None
        /\ state = <<>> /\ shown = <<>> /\ log = <<>>
(* with everything but types and instances fixed *)
FixInstr ==
    /\ pc = "instr"
    /\ instr' = [secs |-> {"init", "save", "final"}, d |-> [pi |-> 2, pd |-> 3, ps |-> 11], bump |-> TRUE,
                 run |-> [pi |-> 2, pd |-> 5, ps |-> 1], given |-> {"pd", "ps"}]
    /\ pc' = "start"
    /\ UNCHANGED <<types, insts, ienv, state, shown, log>>
NextFixed == AddType \/ AddInst \/ FixInstr \/ Advance \/ Start \/ InitInstr \/ SetUp \/ Comps \/ Trace \/ Save \/ Finally \/ Done
Next == AddType \/ AddInst \/ SetInstr \/ Advance \/ Start \/ InitInstr \/ SetUp \/ Comps \/ Trace \/ Save \/ Finally \/ Done
Spec == Init /\ [][Next]_vars
SpecFixed == Init /\ [][NextFixed]_vars
------------------------------------------------------------------------------
Ended == pc = "end"
Count(ph, i) == Cardinality({k \in 1..Len(log) : log[k].ph = ph /\ log[k].who = i})
Times(ph) == CASE ph = "init" -> 1 [] ph = "trace" -> Rays [] ph = "save" -> 2 [] ph = "final" -> 1
OncePerPhase ==
    Ended => \A i \in 1..Len(insts) : \A ph \in {"init", "trace", "save", "final"} :
        Count(ph, i) = IF Has(i, ph) THEN Times(ph) ELSE 0
InOrder ==
    Ended => \A j, k \in 1..Len(log) :
        (j < k /\ log[j].ph = log[k].ph /\ log[j].ph \in {"init", "final"}) => log[j].who < log[k].who
(* what the code of an instance sees does not depend on the other instances: only on its type, what it is given and the instrument *)
OwnValues ==
    Ended => \A k \in 1..Len(log) : LET n == log[k] IN n.who = 0 \/
        \A j \in 1..Len(n.vals) :
            LET w == Value(Type(n.who).pars[j], Inst(n.who).give[j])
                changed == j = 1 /\ Changes(n.who) /\ Has(n.who, "init") /\ n.ph # "init"
            IN n.vals[j] = IF changed THEN [w EXCEPT ![1] = @ + 100] ELSE w
(* private variables count the sections their own instance ran, nothing else *)
PrivateCounts ==
    Ended => \A k \in 1..Len(log) : LET n == log[k] IN n.who = 0 \/
        \A j \in 1..Len(n.priv) :
            n.priv[j][1] = Type(n.who).priv[j].i[1] + Cardinality({q \in 1..(k - 1) : log[q].who = n.who})
FreshPerParticle == Ended => \A k \in 1..Len(log) : \A j \in 1..Len(log[k].user) : log[k].user[j] = 0
=============================================================================
