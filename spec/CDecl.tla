------------------------------- MODULE CDecl -------------------------------
(* What a block of C declares (P21): its variables, in order, with their    *)
(* types, and the types it names. Functions, what is local in them, tags,   *)
(* comments and directives declare no variables.                            *)
(* The type of a declarator is read from its name outwards: a sequence of   *)
(* steps, "array of" (with a size, 0 when its initializer has to tell it),  *)
(* "pointer to" or "function giving", ended by the base type.               *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    MaxItems, MaxDeclarators, MaxSteps,
    Kinds,      \* subset of {"var", "proto", "fn", "alias", "tag", "note", "line", "assert", "empty"}
    Prims,      \* base types which are always there
    Sizes,      \* of arrays, 1..
    Inits,      \* subset of 0..: how many values an initializer has (0: there is none)
    Variants,   \* how it is written
    Names,      \* of variables: numbers
    Sampling

VARIABLES items, decls, base, names, vars, aliases, tags, phase
v == <<items, decls, base, names, vars, aliases, tags, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

(* --- types ------------------------------------------------------------ *)
Ptr == [s |-> "ptr", d |-> 0]
Fun == [s |-> "fn", d |-> 0]
Arr(d) == [s |-> "arr", d |-> d]
StepSet == {Ptr, Fun} \cup {Arr(d) : d \in Sizes \cup {0}}
(* C has no arrays of functions, functions do not give arrays or functions, and only the outermost size can be left out *)
RightStep(before, s) ==
    LET n == Len(before) last == before[n] IN
    /\ s.s = "arr" /\ s.d = 0 => n = 0
    /\ n > 0 => ~(last.s = "arr" /\ s.s = "fn") /\ ~(last.s = "fn" /\ s.s \in {"arr", "fn"})
Legal(t) == \A n \in 1..Len(t) : RightStep(SubSeq(t, 1, n - 1), t[n])
RECURSIVE Types(_)
Types(n) == IF n = 0 THEN {<<>>} ELSE
    LET shorter == Types(n - 1) IN
    shorter \cup UNION {{Append(t, s) : s \in {x \in StepSet : RightStep(t, x)}} : t \in {u \in shorter : Len(u) = n - 1}}
RECURSIVE Draw(_)
Draw(n) == IF n = 0 THEN <<>> ELSE
    LET t == Draw(n - 1) S == {x \in StepSet : RightStep(t, x)} IN Append(t, RandomElement(S))
TypePick(n) == IF Sampling THEN {Draw(RandomElement(0..n))} ELSE Types(n)

IsFunction(t) == Len(t) > 0 /\ t[1].s = "fn"
IsArray(t) == Len(t) > 0 /\ t[1].s = "arr"
(* a function cannot be assigned from a list; an array needs values when its size is not there, and has room for those given *)
RightInit(t, i) ==
    IF IsArray(t) THEN (t[1].d = 0 => i > 0) /\ (t[1].d > 0 => i <= t[1].d) ELSE i <= 1
Sized(t, i) == IF IsArray(t) /\ t[1].d = 0 THEN <<Arr(i)>> \o Tail(t) ELSE t

(* --- the block -------------------------------------------------------- *)
Init ==
    /\ items = <<>> /\ decls = <<>> /\ base = [k |-> "none", i |-> 0] /\ names = Names
    /\ vars = <<>> /\ aliases = <<>> /\ tags = {} /\ phase = "item"

(* the type behind a name *)
Behind(b) == IF b.k = "alias" THEN aliases[b.i] ELSE <<>>
Bases == {[k |-> "prim", i |-> p] : p \in Prims} \cup {[k |-> "alias", i |-> a] : a \in 1..Len(aliases)} \cup {[k |-> "tag", i |-> t] : t \in tags}
Room == Len(items) < MaxItems
Item(k, i, x) == [k |-> k, base |-> [k |-> "none", i |-> 0], ds |-> <<>>, i |-> i, x |-> x]

(* a declaration: the declarators follow one by one, and are declared from there on *)
OpenVar ==
    /\ phase = "item" /\ Room /\ "var" \in Kinds /\ names # {}
    /\ \E b \in Pick(Bases) : base' = b
    /\ phase' = "decl" /\ decls' = <<>>
    /\ UNCHANGED <<items, names, vars, aliases, tags>>
(* a type which is made where it is used has one variable here *)
OpenBody ==
    /\ phase = "item" /\ Room /\ "body" \in Kinds /\ names # {}
    /\ base' = [k |-> "body", i |-> 1 + Cardinality(tags)]
    /\ tags' = tags \cup {1 + Cardinality(tags)}
    /\ phase' = "decl" /\ decls' = <<>>
    /\ UNCHANGED <<items, names, vars, aliases>>
Declare ==
    /\ phase = "decl" /\ Len(decls) < (IF base.k = "body" THEN 1 ELSE MaxDeclarators) /\ names # {}
    /\ \E n \in Pick(names) : \E t \in TypePick(MaxSteps) : \E i \in Pick(Inits) :
        /\ Legal(t \o Behind(base))
        /\ IF IsFunction(t) THEN i = 0 ELSE RightInit(t \o Behind(base), i)
        /\ decls' = Append(decls, [n |-> n, t |-> t, i |-> i])
        /\ names' = names \ {n}
        /\ vars' = IF IsFunction(t) THEN vars ELSE Append(vars, [n |-> n, b |-> base, t |-> Sized(t, i), i |-> i])
    /\ UNCHANGED <<items, base, aliases, tags, phase>>
Close ==
    /\ phase = "decl" /\ Len(decls) > 0
    /\ \E x \in Pick(Variants) : items' = Append(items, [Item("var", 0, x) EXCEPT !.base = base, !.ds = decls])
    /\ phase' = "item" /\ decls' = <<>> /\ base' = [k |-> "none", i |-> 0]
    /\ UNCHANGED <<names, vars, aliases, tags>>
(* a type gets a name, a declarator of it like that of a variable *)
Alias ==
    /\ phase = "item" /\ Room /\ "alias" \in Kinds
    /\ \E b \in Pick(Bases) : \E t \in TypePick(MaxSteps) : \E x \in Pick(Variants) :
        /\ IsArray(t) => t[1].d > 0
        /\ ~IsFunction(t) /\ Legal(t \o Behind(b))
        /\ items' = Append(items, [Item("alias", Len(aliases) + 1, x) EXCEPT !.base = b, !.ds = <<[n |-> 0, t |-> t, i |-> 0]>>])
        /\ aliases' = Append(aliases, t \o Behind(b))
    /\ UNCHANGED <<decls, base, names, vars, tags, phase>>
(* the others: nothing which the block declares changes, whatever names are in them *)
Tag ==
    /\ phase = "item" /\ Room /\ "tag" \in Kinds
    /\ \E x \in Pick(Variants) : items' = Append(items, Item("tag", 1 + Cardinality(tags), x))
    /\ tags' = tags \cup {1 + Cardinality(tags)}
    /\ UNCHANGED <<decls, base, names, vars, aliases, phase>>
Other ==
    /\ phase = "item" /\ Room
    /\ \E k \in Pick(Kinds \ {"var", "body", "alias", "tag"}) : \E n \in Pick(Names) : \E x \in Pick(Variants) :
        items' = Append(items, Item(k, n, x))
    /\ UNCHANGED <<decls, base, names, vars, aliases, tags, phase>>
Stop ==
    /\ phase = "item" /\ Len(items) > 0 /\ phase' = "done"
    /\ Sampling => Len(items) = MaxItems \/ RandomElement(1..20) = 1
    /\ Emit([items |-> items, vars |-> vars, aliases |-> Len(aliases)])
    /\ UNCHANGED <<items, decls, base, names, vars, aliases, tags>>

Next == OpenVar \/ OpenBody \/ Declare \/ Close \/ Alias \/ Tag \/ (Kinds \ {"var", "body", "alias", "tag"} # {} /\ Other) \/ Stop
Spec == Init /\ [][Next]_v
------------------------------------------------------------------------------
(* the same from the whole block at once: every declarator of every declaration, without the functions *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Flat(SubSeq(s, 1, Len(s) - 1)) \o s[Len(s)]
Variable(d) == ~IsFunction(d.t)
Of(it) == LET ds == SelectSeq(it.ds, Variable) IN
          IF it.k = "var" THEN [j \in 1..Len(ds) |-> [n |-> ds[j].n, b |-> it.base, t |-> Sized(ds[j].t, ds[j].i), i |-> ds[j].i]] ELSE <<>>
Whole == phase # "decl" => vars = Flat([j \in 1..Len(items) |-> Of(items[j])])
Once == \A i, j \in 1..Len(vars) : vars[i].n = vars[j].n => i = j
SizesKnown == \A i \in 1..Len(vars) : \A s \in 1..Len(vars[i].t) : vars[i].t[s].s = "arr" => vars[i].t[s].d > 0
(* a type is there before it is used *)
InScope == \A i \in 1..Len(vars) : vars[i].b.k = "alias" => vars[i].b.i \in 1..Len(aliases)
(* what is declared stays so *)
Grows == [][\E k \in 0..Len(vars') : SubSeq(vars', 1, k) = vars /\ Len(vars') <= Len(vars) + 1]_v
=============================================================================
