------------------------------ MODULE CompDef -------------------------------
(* Component definitions made from others (P16). A definition is read when  *)
(* it is first needed: by a user, as the base which it copies, or for a     *)
(* section of it. What it then is stays the same; what it says about itself *)
(* replaces what it has from its base.                                      *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    NDefs,
    Sections,    \* the sections definitions may state, a subset of the names in Order
    SecKinds,    \* subset of {"none", "own", "copy", "ext"}
    ParNames,    \* names of setting parameters
    ParKinds,    \* subset of {"setting", "define", "output"}
    MaxPars,     \* most parameters one definition states
    MdNames,     \* names of metadata
    Cats,        \* subset of {"none", "word", "quoted"}
    Accs,        \* subset of BOOLEAN: whether NOACC may be stated
    Deps,        \* subset of BOOLEAN
    MaxUses,
    Sampling

VARIABLES defs, uses, known, stack, flags, phase

vars == <<defs, uses, known, stack, flags, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S
Order == <<"share", "user", "declare", "initialize", "trace", "save", "final", "display">>
Kinds == <<"define", "setting", "output">>
Nothing == [k |-> "none", of |-> 0]

(* what a definition may say *)
SecOf(i, s) ==
    IF s \notin Sections THEN {Nothing}
    ELSE {[k |-> k, of |-> IF k \in {"copy", "ext"} THEN j ELSE 0] :
            k \in {x \in SecKinds : (x \in {"copy", "ext"} => i > 1 /\ s # "user")}, j \in 1..(IF i > 1 THEN i - 1 ELSE 1)}
(* parameters are stated once per definition; those of a copy may restate inherited ones of the same kind *)
RECURSIVE ParSeqs(_)
ParSeqs(n) == IF n = 0 THEN {<<>>}
              ELSE ParSeqs(n - 1) \cup {Append(q, [n |-> m, k |-> k]) : q \in {x \in ParSeqs(n - 1) : Len(x) = n - 1},
                                          m \in Pick(ParNames), k \in Pick(ParKinds)}
SecChoice(i) == IF Sampling THEN {[s \in {Order[j] : j \in 1..Len(Order)} |-> RandomElement(SecOf(i, s))]}
                ELSE {f \in [{Order[j] : j \in 1..Len(Order)} -> UNION {SecOf(i, s) : s \in Sections \cup {"none"}}] :
                        \A s \in DOMAIN f : f[s] \in SecOf(i, s)}
Distinct(q) == \A x, y \in 1..Len(q) : x # y => q[x].n # q[y].n

None == [base |-> 0, pars |-> <<>>, sec |-> [s \in {Order[j] : j \in 1..Len(Order)} |-> Nothing], md |-> {}, cat |-> "none",
         noacc |-> FALSE, dep |-> FALSE]
(* --- what a definition is, said at once -------------------------------- *)
RECURSIVE Resolve(_)
Merge(old, i, q) ==                                             \* restated in their place, others added behind
    LET add(l, e) == IF \E x \in 1..Len(l) : l[x].n = e.n THEN [x \in 1..Len(l) |-> IF l[x].n = e.n THEN e ELSE l[x]] ELSE Append(l, e)
        RECURSIVE go(_, _)
        go(l, x) == IF x > Len(q) THEN l ELSE go(add(l, [n |-> q[x].n, by |-> i, k |-> q[x].k]), x + 1)
    IN go(old, 1)
Plain == [pars |-> [k \in {"define", "setting", "output"} |-> <<>>], sec |-> [s \in {Order[j] : j \in 1..Len(Order)} |-> <<>>],
          md |-> {}, cat |-> 0, acc |-> TRUE, deps |-> <<>>]
OfKind(q, k) == SelectSeq(q, LAMBDA e : e.k = k)
Head1(b, d, i) ==                                               \* everything but the sections
    [b EXCEPT !.pars = [k \in DOMAIN b.pars |-> Merge(b.pars[k], i, OfKind(d.pars, k))],
              !.md = {m \in b.md : m.n \notin d.md} \cup {[n |-> n, by |-> i] : n \in d.md},
              !.cat = IF d.cat = "none" THEN b.cat ELSE i,
              !.acc = b.acc /\ ~d.noacc,
              !.deps = IF d.dep THEN Append(b.deps, i) ELSE b.deps]
Stated(x, i, s, other) ==                                        \* a section from what it says
    CASE x.k = "own" -> <<[d |-> i, s |-> s]>>
      [] x.k = "copy" -> other
      [] x.k = "ext" -> Append(other, [d |-> i, s |-> s])
      [] OTHER -> <<>>
Resolve(i) ==
    LET d == defs[i]
        b == IF d.base = 0 THEN Plain ELSE Resolve(d.base)
        h == Head1(b, d, i)
    IN [h EXCEPT !.sec = [s \in DOMAIN h.sec |->
            IF d.sec[s].k = "none" THEN h.sec[s]
            ELSE Stated(d.sec[s], i, s, IF d.sec[s].of = 0 THEN <<>> ELSE Resolve(d.sec[s].of).sec[s])]]
(* --- reading, step by step --------------------------------------------- *)
(* a parameter does not change its kind, which the code refuses *)
Usable(d, i) ==
    /\ Distinct(d.pars)
    /\ \A x \in 1..Len(d.pars) : \A k \in {"define", "setting", "output"} :
         d.base > 0 /\ k # d.pars[x].k => \A y \in 1..Len(Resolve(d.base).pars[k]) : Resolve(d.base).pars[k][y].n # d.pars[x].n

AddDef ==
    /\ phase = "defs" /\ Len(defs) < NDefs
    /\ LET i == Len(defs) + 1 IN
       \E b \in Pick(0..(i - 1)), q \in (IF Sampling THEN {RandomElement(ParSeqs(MaxPars))} ELSE ParSeqs(MaxPars)), f \in SecChoice(i),
          m \in Pick(SUBSET MdNames), c \in Pick(Cats), a \in Pick(Accs), dp \in Pick(Deps) :
         LET d == [base |-> b, pars |-> q, sec |-> f, md |-> m, cat |-> c, noacc |-> a, dep |-> dp] IN
         Usable(d, i) /\ defs' = Append(defs, d)
    /\ UNCHANGED <<uses, known, stack, flags, phase>>
StartUsing == phase = "defs" /\ Len(defs) = NDefs /\ phase' = "use" /\ UNCHANGED <<defs, uses, known, stack, flags>>

Frame(i) == [d |-> i, pc |-> 0, cur |-> Plain]
Use ==
    /\ phase = "use" /\ stack = <<>> /\ Len(uses) < MaxUses
    /\ \E i \in Pick(1..NDefs) :
        /\ uses' = Append(uses, i)
        /\ stack' = IF i \in DOMAIN known THEN <<>> ELSE <<Frame(i)>>
    /\ UNCHANGED <<defs, known, flags, phase>>

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Need(i) == i # 0 /\ i \notin DOMAIN known
Step ==
    /\ phase = "use" /\ stack # <<>>
    /\ LET i == Top.d d == defs[i] pc == Top.pc IN
       IF pc = 0 THEN                                            \* the base
         /\ stack' = IF Need(d.base) THEN Append(stack, Frame(d.base))
                     ELSE Append(Below, [Top EXCEPT !.pc = 1, !.cur = IF d.base = 0 THEN Plain ELSE known[d.base]])
         /\ UNCHANGED <<known, flags>>
       ELSE IF pc = 1 THEN                                       \* parameters, metadata, flags
         /\ stack' = Append(Below, [Top EXCEPT !.pc = 2, !.cur = Head1(@, d, i)])
         /\ flags' = IF d.dep THEN Append(flags, i) ELSE flags
         /\ UNCHANGED known
       ELSE IF pc < 2 + Len(Order) THEN                          \* the sections in their order
         LET s == Order[pc - 1] x == d.sec[s] IN
         /\ stack' = IF Need(x.of) THEN Append(stack, Frame(x.of))
                     ELSE Append(Below, [Top EXCEPT !.pc = pc + 1, !.cur.sec[s] =
                            IF x.k = "none" THEN @ ELSE Stated(x, i, s, IF x.of = 0 THEN <<>> ELSE known[x.of].sec[s])])
         /\ UNCHANGED <<known, flags>>
       ELSE
         /\ known' = [j \in DOMAIN known \cup {i} |-> IF j = i THEN Top.cur ELSE known[j]]
         /\ stack' = Below
         /\ UNCHANGED flags
    /\ UNCHANGED <<defs, uses, phase>>

Done ==
    /\ phase = "use" /\ stack = <<>> /\ Len(uses) = MaxUses
    /\ phase' = "done"
    /\ Emit([defs |-> defs, uses |-> uses, flags |-> flags,
             known |-> [i \in 1..NDefs |-> IF i \in DOMAIN known THEN <<known[i]>> ELSE <<>>]])
    /\ UNCHANGED <<defs, uses, known, stack, flags>>

Init == defs = <<>> /\ uses = <<>> /\ known = [x \in {} |-> Plain] /\ stack = <<>> /\ flags = <<>> /\ phase = "defs"
Next == AddDef \/ StartUsing \/ Use \/ Step \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* what was read is what the definition says, whatever was read before *)
ReadingIsResolving == phase # "defs" => \A i \in DOMAIN known : known[i] = Resolve(i)
(* a definition once read never changes *)
Stable == [][\A i \in DOMAIN known : i \in DOMAIN known' /\ known'[i] = known[i]]_vars
(* everything of the base which is not restated is there *)
Inherits ==
    phase = "done" => \A i \in DOMAIN known : defs[i].base # 0 => LET b == Resolve(defs[i].base) r == known[i] IN
        /\ \A k \in DOMAIN b.pars : \A x \in 1..Len(b.pars[k]) : r.pars[k][x].n = b.pars[k][x].n
                /\ (r.pars[k][x].by # b.pars[k][x].by => r.pars[k][x].by = i)
        /\ \A s \in DOMAIN b.sec : defs[i].sec[s].k = "none" => r.sec[s] = b.sec[s]
        /\ {m.n : m \in b.md} \subseteq {m.n : m \in r.md}
        /\ b.acc = FALSE => r.acc = FALSE
(* flags are collected once per definition which states them and was read *)
FlagsOnce ==
    /\ \A x, y \in 1..Len(flags) : x # y => flags[x] # flags[y]
    /\ phase = "done" => {flags[x] : x \in 1..Len(flags)} = {i \in DOMAIN known : defs[i].dep}
(* what a definition needs has been read before it is known *)
NeedsRead == \A i \in DOMAIN known : /\ defs[i].base \in DOMAIN known \cup {0}
                                     /\ \A s \in DOMAIN defs[i].sec : defs[i].sec[s].of \in DOMAIN known \cup {0}
=============================================================================
