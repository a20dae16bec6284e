----------------------------- MODULE Instrument -----------------------------
(* What an instrument source means (P01, P02, P03), and what the operations *)
(* on an instrument preserve (P04 - P07, P17, P18).                         *)
(*                                                                          *)
(* The actions are the statements of a source in the order they are read:   *)
(* AddComp one COMPONENT statement, Open/Close an %include. script is the   *)
(* source; the frame on top of the stack is the (partly read) instrument it *)
(* means. Values, code and placements are small tokens which the harness    *)
(* writes in their several textual forms.                                   *)
EXTENDS Cube, Emit, FiniteSets, SequencesExt, Functions

CONSTANTS
    MaxComps,     \* COMPONENT statements per source, all files together
    MaxFiles,     \* includes per source
    Depth,        \* nesting of includes
    Names,        \* instance names written in the source
    Types,        \* component types ("Gone" does not exist, "Cpu" is NOACC)
    Headers,      \* headers a file may have
    Values,       \* parameter token sequences a statement may have: <<[p, v], ...>>
    Whens, Splits, Exts, Grps, Rems, Cpus,
    Ats, Rots,    \* placements (integers, quarter turns)
    Syms,         \* the coordinate written with an instrument parameter: 0 none, 1-3 of AT, 4-6 of ROTATED
    RefKinds,     \* subset of {"abs", "name", "prev"}
    BadRefs,      \* BOOLEAN: references that may designate nothing
    NameKinds,    \* subset of {"id", "copyid", "anon"}
    TypeKinds,    \* subset of {"type", "copy"}
    JumpKinds,    \* subset of 1..4: WHEN flag, WHEN parameter, ITERATE n, WHEN two parameters
    JumpForms,    \* subset of {"name", "prev", "next", "myself"}
    Mds,          \* metadata sequences <<[n, v], ...>>
    Extra,        \* operation on the finished instrument: "none", "split", "used", "meta", "change"
    Sampling

VARIABLES stack, script, err, phase, files, fresh

vars == <<stack, script, err, phase, files, fresh>>


Pick(S) == IF Sampling /\ S # {} THEN {RandomElement(S)} ELSE S
Seldom(S, default) == IF Sampling /\ RandomElement(1..5) > 2 THEN {default} ELSE Pick(S)
Often(S, default) == IF Sampling /\ RandomElement(1..4) = 1 THEN {default} ELSE Pick(S)

Top == stack[Len(stack)]
(* everything the files being read have kept so far, oldest first *)
RECURSIVE FlatComps(_)
FlatComps(k) == IF k = 0 THEN <<>> ELSE FlatComps(k - 1) \o stack[k].comps
Visible == FlatComps(Len(stack))
------------------------------------------------------------------------------
(* References. The answer is a position in Visible, 0 ABSOLUTE, -1 nothing  *)
Named(n) == LET h == {i \in 1..Len(Visible) : Visible[i].name = n}
            IN IF h = {} THEN -1 ELSE CHOOSE i \in h : \A j \in h : j <= i
Resolve(r) ==
    CASE r.k = "abs" -> 0
      [] r.k = "name" -> Named(r.s)
      [] OTHER -> IF r.n >= 1 /\ r.n <= Len(Visible) THEN Len(Visible) - r.n + 1 ELSE -1
NameAt(i) == IF i = 0 THEN "" ELSE Visible[i].name
PoseAt(i) == IF i = 0 THEN Lab ELSE Visible[i].pose

Abs == [k |-> "abs", s |-> "", n |-> 0]
GoodRefs ==
    (IF "name" \in RefKinds THEN {[k |-> "name", s |-> Visible[i].name, n |-> 0] : i \in 1..Len(Visible)} ELSE {})
    \cup (IF "prev" \in RefKinds THEN {[k |-> "prev", s |-> "", n |-> i] : i \in 1..Len(Visible)} ELSE {})
SomeBad ==
    IF BadRefs /\ (~Sampling \/ RandomElement(1..12) = 1)
    THEN {[k |-> "prev", s |-> "", n |-> Len(Visible) + 1],
          [k |-> "name", s |-> "absent", n |-> 0]}
    ELSE {}
Refs == LET all == GoodRefs \cup SomeBad IN IF Sampling /\ all # {} /\ RandomElement(1..3) > 1 THEN all ELSE {Abs} \cup all
CopyRefs == GoodRefs \cup SomeBad
------------------------------------------------------------------------------
(* One COMPONENT statement                                                  *)
Auto == ToString(Len(Visible) + 1)
InstName(nm) ==
    CASE nm.k = "id" -> nm.s
      [] nm.k = "copyid" -> nm.s \o "_" \o Auto
      [] OTHER -> "Comp_" \o Auto

(* instance names are mostly new ones *)
NameChoices ==
    {[k |-> "id", s |-> n] : n \in {x \in Names : "id" \in NameKinds}}
    \cup (IF "copyid" \in NameKinds THEN {[k |-> "copyid", s |-> n] : n \in Names} ELSE {})
    \cup (IF "anon" \in NameKinds THEN {[k |-> "anon", s |-> ""]} ELSE {})
FreshNames == LET f == {c \in NameChoices : \A i \in 1..Len(Visible) : Visible[i].name # InstName(c)}
              IN IF f # {} /\ (IF Sampling THEN RandomElement(1..15) > 1 ELSE ~BadRefs) THEN f ELSE NameChoices
TypeChoices ==
    {[k |-> "type", s |-> t, n |-> 0] : t \in {x \in Types : "type" \in TypeKinds \/ Visible = <<>>}}
    \cup (IF "copy" \in TypeKinds THEN {[k |-> "copy", s |-> r.s, n |-> r.n] : r \in CopyRefs} ELSE {})
CopyRef(ty) == IF ty.n # 0 \/ ty.s = "" THEN [k |-> "prev", s |-> "", n |-> ty.n] ELSE [k |-> "name", s |-> ty.s, n |-> 0]

NoJump == [k |-> 0, f |-> "", s |-> "", n |-> 0, m |-> 0]
Jumps1 ==
    {[k |-> k, f |-> f, s |-> s, n |-> n, m |-> m] :
        k \in JumpKinds, f \in JumpForms, s \in Names, n \in 0..2, m \in {2, 3}}
(* a written form: only "name" has a name, only prev/next a count, only ITERATE a number *)
JumpNormal(j) == [j EXCEPT !.s = IF j.f = "name" THEN @ ELSE "",
                           !.n = IF j.f \in {"prev", "next"} THEN @ ELSE 0,
                           !.m = IF j.k = 3 THEN @ ELSE 0]
JumpSeqs == LET one == {JumpNormal(j) : j \in Jumps1}
            IN IF JumpKinds = {} THEN {<<>>} ELSE {<<>>} \cup {<<j>> : j \in one}
               \cup (IF Sampling THEN {<<a, b>> : a \in Pick(one), b \in Pick(one)} ELSE {})

(* parameter values: stated ones are kept in order, the first statement of a parameter in *)
(* one list counts; in a copy the stated ones replace the inherited                       *)
RECURSIVE SetPars(_, _, _)
SetPars(have, stated, overwrite) ==
    IF stated = <<>> THEN have
    ELSE LET s == Head(stated)
             present == \E i \in 1..Len(have) : have[i].p = s.p
             rest == SelectSeq(have, LAMBDA x : x.p # s.p)
         IN SetPars(IF present /\ ~overwrite THEN have ELSE Append(rest, s), Tail(stated), overwrite)

RECURSIVE AddMds(_, _)
AddMds(have, new) ==
    IF new = <<>> THEN have
    ELSE AddMds(Append(SelectSeq(have, LAMBDA x : x.n # Head(new).n), Head(new)), Tail(new))

KnownPar(ty, p) == ty # "Arm" /\ p # "nopar"
IsGpuOnly(ty) == ty = "Cpu"

(* PREVIOUS and MYSELF as values of parameters are the names of instances   *)
Bound(stated, me) ==
    [i \in 1..Len(stated) |->
        IF stated[i].v = 8 THEN [p |-> stated[i].p, v |-> 8, s |-> NameAt(Len(Visible))]
        ELSE IF stated[i].v = 9 THEN [p |-> stated[i].p, v |-> 9, s |-> me]
        ELSE [p |-> stated[i].p, v |-> stated[i].v, s |-> ""]]

(* why a statement is refused, or "" *)
Refusal(st) ==
    LET nm == InstName(st.nm)
        src == IF st.ty.k = "copy" THEN Resolve(CopyRef(st.ty)) ELSE 0
        type == IF st.ty.k = "type" THEN st.ty.s ELSE IF src > 0 THEN Visible[src].type ELSE ""
    IN CASE st.ty.k = "copy" /\ src < 1 -> "reference"
         [] type = "Gone" -> "type"
         [] Resolve(st.aref) = -1 -> "reference"
         [] ~st.norot /\ Resolve(st.rref) = -1 -> "reference"
         [] \E i \in 1..Len(st.pv) : ~KnownPar(type, st.pv[i].p) -> "parameter"
         [] Visible = <<>> /\ (\E i \in 1..Len(st.pv) : st.pv[i].v = 8) -> "previous"
         [] \E i \in 1..Len(Top.comps) : Top.comps[i].name = nm -> IF Len(stack) > 1 /\ st.rem THEN "" ELSE "name"
         [] OTHER -> ""

NotCopied == [name |-> "", type |-> "", pv |-> <<>>, when |-> 0, grp |-> 0, ext |-> 0, jump |-> <<>>, md |-> <<>>]

Meaning(st) ==
    LET nm == InstName(st.nm)
        iscopy == st.ty.k = "copy"
        src == IF iscopy THEN Visible[Resolve(CopyRef(st.ty))] ELSE NotCopied
        type == IF iscopy THEN src.type ELSE st.ty.s
        a == Resolve(st.aref)
        r == IF st.norot THEN a ELSE Resolve(st.rref)
        q == IF st.norot THEN Zero3 ELSE st.rot
        Or(x, none, y) == IF x # none THEN x ELSE y
    IN [name |-> nm, type |-> type,
        pv |-> SetPars(src.pv, Bound(st.pv, nm), iscopy),
        when |-> Or(st.when, 0, src.when), grp |-> Or(st.grp, 0, src.grp),
        ext |-> Or(st.ext, 0, src.ext), jump |-> Or(st.jump, <<>>, src.jump),
        split |-> st.split, rem |-> st.rem, cpu |-> st.cpu \/ IsGpuOnly(type),
        md |-> AddMds(src.md, st.md),
        at |-> st.at, sym |-> IF st.norot /\ st.sym > 3 THEN 0 ELSE st.sym, aref |-> NameAt(a), rot |-> q, rref |-> NameAt(r),
        pose |-> Compose(PoseAt(a), st.at, PoseAt(r), q)]

Statements ==
    {[nm |-> nm, ty |-> ty, pv |-> pv, when |-> w, split |-> s, ext |-> e, grp |-> g, rem |-> rm, cpu |-> cp,
      at |-> a, sym |-> sy, aref |-> ar, norot |-> q = <<>>, rot |-> IF q = <<>> THEN Zero3 ELSE q,
      rref |-> IF q = <<>> THEN Abs ELSE rr, jump |-> j, md |-> md] :
        nm \in Pick(FreshNames), ty \in Pick(TypeChoices), pv \in Often(Values, <<>>), w \in Seldom(Whens, 0),
        s \in Seldom(Splits, 0), e \in Seldom(Exts, 0), g \in Seldom(Grps, 0), rm \in Seldom(Rems, FALSE),
        cp \in Seldom(Cpus, FALSE), a \in Pick(Ats), sy \in Seldom(Syms, 0), ar \in Pick(Refs),
        q \in Often({<<>>} \cup Rots, <<>>), rr \in Pick(Refs), j \in Seldom(JumpSeqs, <<>>), md \in Seldom(Mds, <<>>)}

Count == Cardinality({i \in 1..Len(script) : script[i].op = "comp"})

(* groups cannot be interleaved with others in a way a program could run; the same name is one group *)
Changes == Cardinality({i \in 1..Len(script) : script[i].op = "change"})

AddComp ==
    /\ phase = "read" /\ err = "" /\ Count < MaxComps /\ Changes = 0
    /\ \E st \in Statements :
        LET usable == (st.ty.k # "type" \/ st.ty.s # "Arm" \/ st.pv = <<>>)
        IN /\ usable
           /\ script' = Append(script, [op |-> "comp", st |-> st])
           /\ err' = Refusal(st)
           /\ stack' = IF Refusal(st) # "" \/ (Len(stack) > 1 /\ st.rem) THEN stack
                       ELSE [stack EXCEPT ![Len(stack)].comps = Append(@, Meaning(st))]
    /\ UNCHANGED <<phase, files, fresh>>
------------------------------------------------------------------------------
(* One attribute of one component of the finished instrument is set: nothing else changes, *)
(* whatever was copied from whatever                                                        *)
ChangeChoices(c) ==
    LET none == [k |-> "none", pv |-> <<>>, n |-> 0, jump |-> <<>>, md |-> <<>>]
    IN {[none EXCEPT !.k = "par", !.pv = v] : v \in Pick(Values \ {<<>>})}
       \cup {[none EXCEPT !.k = "when", !.n = w] : w \in Pick(Whens)}
       \cup {[none EXCEPT !.k = "ext", !.n = w] : w \in Pick(Exts)}
       \cup {[none EXCEPT !.k = "split", !.n = w] : w \in Pick(Splits)}
       \cup {[none EXCEPT !.k = "group", !.n = w] : w \in Pick(Grps)}
       \cup {[none EXCEPT !.k = "jump", !.jump = w] : w \in Pick(JumpSeqs)}
       \cup {[none EXCEPT !.k = "md", !.md = w] : w \in Pick(Mds)}
UsableChange(c, ch) == ch.k # "none" /\ (ch.k \in {"par", "md", "jump"} \/ ch.n # 0) /\ (ch.k = "jump" => ch.jump # <<>>)
                       /\ (ch.k = "md" => ch.md # <<>>) /\ (ch.k = "par" => c.type # "Arm")
Changed(c, ch) ==
    CASE ch.k = "par" -> [c EXCEPT !.pv = SetPars(@, [i \in 1..Len(ch.pv) |-> [p |-> ch.pv[i].p, v |-> ch.pv[i].v, s |-> ""]], TRUE)]
      [] ch.k = "when" -> [c EXCEPT !.when = ch.n]
      [] ch.k = "ext" -> [c EXCEPT !.ext = ch.n]
      [] ch.k = "split" -> [c EXCEPT !.split = ch.n]
      [] ch.k = "group" -> [c EXCEPT !.grp = ch.n]
      [] ch.k = "jump" -> [c EXCEPT !.jump = ch.jump]
      [] OTHER -> [c EXCEPT !.md = AddMds(@, ch.md)]

Change ==
    /\ Extra = "change" /\ phase = "read" /\ err = "" /\ Len(stack) = 1 /\ Count = MaxComps /\ Changes < 4
    /\ \E i \in Pick(1..Len(Top.comps)) : \E ch \in Pick({x \in ChangeChoices(Top.comps[i]) : UsableChange(Top.comps[i], x)}) :
        /\ script' = Append(script, [op |-> "change", i |-> i, ch |-> ch])
        /\ stack' = [stack EXCEPT ![1].comps[i] = Changed(@, ch)]
    /\ UNCHANGED <<phase, err, files, fresh>>
------------------------------------------------------------------------------
(* Files: a header [name, pars, dep, decl, user, init, save, fin, md]        *)
RECURSIVE AddPars(_, _)
AddPars(have, new) ==
    IF new = <<>> THEN have
    ELSE AddPars(IF \E i \in 1..Len(have) : have[i].n = Head(new).n THEN have ELSE Append(have, Head(new)), Tail(new))
Block(t) == IF t = 0 THEN <<>> ELSE <<t>>
Repeats(ps) == \E i, j \in 1..Len(ps) : i < j /\ ps[i].n = ps[j].n

Frame(h) == [name |-> h.name, pars |-> h.pars, comps |-> <<>>, md |-> AddMds(<<>>, [i \in 1..Len(h.md) |-> [n |-> h.md[i].n, v |-> h.md[i].v, o |-> h.name]]),
             decl |-> Block(h.decl), user |-> Block(h.user), init |-> Block(h.init),
             save |-> <<>>, fin |-> <<>>, incl |-> <<>>, deps |-> Block(h.dep), hdr |-> h]

Start ==
    /\ phase = "start"
    /\ \E h \in Pick(Headers) :
        /\ stack' = <<Frame(h)>> /\ script' = <<[op |-> "file", hdr |-> h]>>
        /\ err' = IF Repeats(h.pars) THEN "repeated" ELSE ""
        /\ fresh' = [name |-> h.name]
    /\ phase' = "read" /\ UNCHANGED files

Open ==
    /\ phase = "read" /\ err = "" /\ files < MaxFiles /\ Len(stack) <= Depth
    /\ \E h \in Pick({x \in Headers : \A i \in 1..Len(script) : script[i].op = "file" => script[i].hdr.name # x.name}) :
        /\ stack' = Append(stack, Frame(h)) /\ script' = Append(script, [op |-> "file", hdr |-> h])
        /\ err' = IF Repeats(h.pars) THEN "repeated" ELSE ""
    /\ files' = files + 1 /\ UNCHANGED <<phase, fresh>>

Closed(f) == [f EXCEPT !.save = @ \o Block(f.hdr.save), !.fin = @ \o Block(f.hdr.fin)]

Merge(into, f) ==
    [into EXCEPT !.pars = AddPars(@, f.pars), !.comps = @ \o f.comps, !.md = AddMds(@, f.md),
                 !.decl = @ \o f.decl, !.user = @ \o f.user, !.init = @ \o f.init,
                 !.save = @ \o f.save, !.fin = @ \o f.fin, !.incl = Append(@, f.name),
                 !.deps = @ \o f.deps]

Close ==
    /\ phase = "read" /\ err = "" /\ Len(stack) > 1
    /\ LET f == Closed(Top) into == stack[Len(stack) - 1]
           clash == \E i \in 1..Len(f.comps), j \in 1..Len(into.comps) : f.comps[i].name = into.comps[j].name
       IN /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), Merge(into, f))
          /\ err' = IF clash THEN "name" ELSE ""
    /\ script' = Append(script, [op |-> "end"])
    /\ UNCHANGED <<phase, files, fresh>>
------------------------------------------------------------------------------
(* The finished instrument                                                  *)
Groups(comps) == {[g |-> g, ids |-> SetToSortSeq({i \in 1..Len(comps) : comps[i].grp = g}, <)] :
                  g \in {comps[i].grp : i \in 1..Len(comps)} \ {0}}

(* names occurring in a value, condition or block *)
ValueUses(p, v) ==
    CASE p = "len" /\ v = 2 -> {"pa"} [] p = "len" /\ v = 3 -> {"pab"} [] p = "len" /\ v = 4 -> {"pa", "pab"}
      [] p = "len" /\ v = 5 -> {"pab"}
      [] p = "num" /\ v = 2 -> {"pn"} [] p = "num" /\ v = 3 -> {"pn"}
      [] p = "txt" /\ v = 2 -> {"ps"} [] p = "vec" /\ v = 3 -> {"pa", "pab"} [] p = "len" /\ v = 6 -> {"pa"} [] OTHER -> {}
WhenUses(w) == CASE w = 2 -> {"pa"} [] w = 3 -> {"pn"} [] w = 5 -> {"pab"} [] OTHER -> {}
SplitUses(s) == CASE s = 3 -> {"pn"} [] s = 4 -> {"pa"} [] OTHER -> {}
(* tokens from 10 are names in comments, strings, longer names (10 - 14: no use) and next to those (15 - 19: uses) *)
TrickyUses(b) == CASE b = 15 -> {"pn"} [] b = 16 -> {"pa"} [] b = 17 -> {"pa"} [] b = 18 -> {"pab"} [] b = 19 -> {"pa", "pab"} [] OTHER -> {}
ExtUses(e) == CASE e = 2 -> {"pab"} [] e = 3 -> {"pa"} [] OTHER -> TrickyUses(e)
BlockUses(b) == CASE b = 2 -> {"pa"} [] b = 4 -> {"pab"} [] b = 6 -> {"ps"} [] OTHER -> TrickyUses(b)
JumpUses(j) == CASE j.k = 2 -> {"pn"} [] j.k = 4 -> {"pa", "pab"} [] OTHER -> {}
CompUses(c) ==
    UNION {ValueUses(c.pv[i].p, c.pv[i].v) : i \in 1..Len(c.pv)}
    \cup WhenUses(c.when) \cup SplitUses(c.split) \cup ExtUses(c.ext)
    \cup UNION {JumpUses(c.jump[i]) : i \in 1..Len(c.jump)}
    \cup (IF c.sym # 0 THEN {"pn"} ELSE {})
(* a placement made ABSOLUTE contains what its references contained *)
RECURSIVE Chain(_, _)
Chain(comps, i) ==
    LET At(n) == CHOOSE k \in 1..Len(comps) : comps[k].name = n
        up == (IF comps[i].aref = "" THEN {} ELSE {At(comps[i].aref)})
              \cup (IF comps[i].rref = "" THEN {} ELSE {At(comps[i].rref)})
    IN {i} \cup UNION {Chain(comps, k) : k \in up}
Codes(f) == UNION {BlockUses(b) : b \in Range(f.decl) \cup Range(f.user) \cup Range(f.init)
                                         \cup Range(f.save) \cup Range(f.fin)}
Used(f, comps) == Codes(f) \cup UNION {CompUses(comps[i]) : i \in 1..Len(comps)}

(* splitting at component k: a reference which the second part does not have is made absolute *)
Angles == [m \in CubeGroup |-> CHOOSE q \in Quarters : Rotation(q) = m]
Second(comps, k) ==
    LET keep == {comps[i].name : i \in k..Len(comps)}
        gone(n) == n # "" /\ n \notin keep
    IN [i \in 1..(Len(comps) - k + 1) |->
          LET c == comps[k + i - 1]
          IN [c EXCEPT !.aref = IF gone(@) THEN "" ELSE @,
                       !.rref = IF gone(@) THEN "" ELSE @,
                       !.at = IF gone(c.aref) THEN c.pose.p ELSE @,
                       !.sym = IF gone(IF @ < 4 THEN c.aref ELSE c.rref) THEN 0 ELSE @,
                       !.rot = IF gone(c.rref) THEN Angles[c.pose.r] ELSE @]
             @@ [turned |-> gone(c.rref)]]
(* a component's place contains what those of its references contain *)
ChainUses(comps, i) == IF \E k \in Chain(comps, i) : comps[k].sym # 0 THEN {"pn"} ELSE {}
(* names a placement made absolute may contain: those of what it was relative to *)
Behind(f, k) ==
    LET b == Second(f.comps, k)
        lost == {i \in k..Len(f.comps) : b[i - k + 1].aref # f.comps[i].aref \/ b[i - k + 1].rref # f.comps[i].rref}
    IN IF \E i \in lost : \E j \in Chain(f.comps, i) : f.comps[j].sym # 0 THEN {"pn"} ELSE {}
(* the split point replaced by a writer (first part) and a reader (second part), which are in no group *)
Ungrouped(comps, i) == [comps EXCEPT ![i] = [@ EXCEPT !.grp = 0]]
Parts(f) ==
    [k \in 1..Len(f.comps) |->
       LET a == SubSeq(f.comps, 1, k) b == Second(f.comps, k)
       IN [second |-> b, fgroups |-> Groups(a), sgroups |-> Groups(b),
           wgroups |-> Groups(Ungrouped(a, k)), rgroups |-> Groups(Ungrouped(b, 1)),
           fused |-> Used(f, a), sused |-> Used(f, b), sallow |-> Used(f, b) \cup Behind(f, k)]]

(* metadata of the type's definition: m1 of its own, but Slot states m1, m2 and m1 again *)
TypeMd(t) ==
    CASE t \in {"Det", "Cpu", "Flg"} -> <<[n |-> "m1", v |-> 90]>>
      [] t = "Slot" -> AddMds(<<>>, <<[n |-> "m1", v |-> 90], [n |-> "m2", v |-> 92], [n |-> "m1", v |-> 91]>>)
      [] OTHER -> <<>>
(* collected: the instance's own entry of a name takes the place of its type's *)
Find(md, x) == md[CHOOSE i \in 1..Len(md) : md[i].n = x]
NamesOf(md) == {md[i].n : i \in 1..Len(md)}
Collected(c) ==
    LET own == NamesOf(c.md) type == TypeMd(c.type)
    IN {[o |-> IF x \in own THEN c.name ELSE c.type, k |-> IF x \in own THEN "Instance" ELSE "Component", n |-> x,
         v |-> IF x \in own THEN Find(c.md, x).v ELSE Find(type, x).v] : x \in own \cup NamesOf(type)}

Result ==
    LET f == Closed(stack[1])
    IN [name |-> f.name, pars |-> f.pars, comps |-> f.comps, md |-> f.md, decl |-> f.decl, user |-> f.user,
        init |-> f.init, save |-> f.save, fin |-> f.fin, incl |-> f.incl, deps |-> f.deps, groups |-> Groups(f.comps),
        used |-> IF Extra = "used" THEN Used(f, f.comps) ELSE {},
        usedby |-> IF Extra = "used" THEN [i \in 1..Len(f.comps) |-> [own |-> CompUses(f.comps[i]), chain |-> ChainUses(f.comps, i)]] ELSE <<>>,
        parts |-> IF Extra = "split" THEN Parts(f) ELSE <<>>,
        collected |-> IF Extra = "meta" THEN [i \in 1..Len(f.comps) |-> Collected(f.comps[i])] ELSE <<>>]

(* JUMPs by name must exist for a program to be made: any source may be read, though *)
Finish ==
    /\ phase = "read" /\ (err # "" \/ Len(stack) = 1)
    /\ Count > 0
    /\ (Sampling /\ Extra = "change" /\ err = "" => Changes = 4)
    /\ (Sampling /\ err = "" => Count = MaxComps)
    /\ phase' = "done"
    /\ Emit(IF err # "" THEN [script |-> script, err |-> err] ELSE [script |-> script, err |-> "", res |-> Result])
    /\ UNCHANGED <<stack, script, err, files, fresh>>

Init == /\ stack = <<>> /\ script = <<>> /\ err = "" /\ phase = "start" /\ files = 0 /\ fresh = [name |-> ""]
Next == Start \/ AddComp \/ Change \/ Open \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* What the meaning always satisfies *)
Final == IF phase = "done" /\ err = "" THEN stack[1].comps ELSE <<>>
UniqueNames == \A i, j \in 1..Len(Final) : i # j => Final[i].name # Final[j].name
RefsEarlier ==
    \A i \in 1..Len(Final) : \A n \in {Final[i].aref, Final[i].rref} \ {""} :
        \E j \in 1..(i - 1) : Final[j].name = n
NothingRemovableIncluded ==
    \A k \in 2..Len(stack) : \A i \in 1..Len(stack[k].comps) : ~stack[k].comps[i].rem
(* a part's poses are those of the whole *)
RECURSIVE PoseIn(_, _)
PoseIn(comps, i) ==
    LET c == comps[i]
        At(n) == IF n = "" THEN Lab ELSE PoseIn(comps, CHOOSE k \in 1..Len(comps) : comps[k].name = n)
    IN Compose(At(c.aref), c.at, At(c.rref), c.rot)
PosesConsistent == \A i \in 1..Len(Final) : PoseIn(Final, i) = Final[i].pose
SplitKeepsPoses ==
    Extra = "split" =>
    \A k \in 1..Len(Final) :
        LET b == Second(Final, k)
        IN \A i \in 1..Len(b) : PoseIn(b, i) = b[i].pose
SecondSelfContained ==
    \A k \in 1..Len(Final) :
        LET b == Second(Final, k)
        IN \A i \in 1..Len(b) : \A n \in {b[i].aref, b[i].rref} \ {""} : \E j \in 1..(i - 1) : b[j].name = n
PartsTile ==
    \A k \in 1..Len(Final) :
        /\ Second(Final, k)[1].name = Final[k].name
        /\ Len(Second(Final, k)) = Len(Final) - k + 1
=============================================================================
