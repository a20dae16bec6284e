------------------------------ MODULE Raytrace ------------------------------
(* How a particle is carried through an instrument (P09) and in which       *)
(* coordinates every component sees it (P10).                               *)
(*                                                                          *)
(* An instrument is a sequence of component records                         *)
(*   act    has TRACE code (otherwise it only holds a place)                *)
(*   when   0 always, 1 only if flag = 1, 2 only if flag = 0                *)
(*   split  0 none, n copies                                                *)
(*   grp    0 none, otherwise the number of the GROUP it belongs to         *)
(*   ext    EXTEND code: 0 none, 1 flag := 1, 2 flag := scattered,          *)
(*          3 flag := 0                                                     *)
(*   jump   sequence of [k, to, n]: k=1 JUMP WHEN flag = 1, k=2 JUMP WHEN   *)
(*          flag = 0, k=3 JUMP ITERATE n                                    *)
(*   at, aref, rot, rref  placement; reference 0 is ABSOLUTE, and rref = -1 *)
(*          is an omitted ROTATED                                           *)
(*                                                                          *)
(* Whenever a component acts on a particle the outcome is chosen freely:    *)
(*   0 pass unchanged  1 move it  2 move, turn, double weight and SCATTER   *)
(*   3 absorb it       4 move it and RESTORE   5 SCATTER and RESTORE        *)
(*   6 SCATTER and absorb it                                                *)
(* The choices are the "schedule"; log is what the components observe.      *)
EXTENDS Cube, Emit, FiniteSets

CONSTANTS
    MaxComps,        \* components per instrument (build phase)
    Ats, Rots,       \* placements to choose from (build phase)
    Whens, Splits, Exts, JumpKinds, Outcomes,
    Arms,            \* BOOLEAN values of ~act to choose from
    Groups,          \* BOOLEAN: use GROUPs
    Refs,            \* "any" or "prev": references to choose from
    MaxLog,          \* bound on the number of component executions
    Sampling,        \* BOOLEAN: draw instruments at random instead of enumerating them
    CfgFile          \* "" or a JSON file with instruments (run phase)

VARIABLES phase, cfg, pose, part, pending, log, script

vars == <<phase, cfg, pose, part, pending, log, script>>

NoPart == [at |-> 0]
------------------------------------------------------------------------------
(* Build phase: any instrument *)
Split(c) == c.split > 0
MemberOf(c, g) == g > 0 /\ c.grp = g
Members(g) == {i \in 1..Len(cfg) : cfg[i].grp = g}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Placement, along the two reference chains *)
PoseOf(i) == IF i = 0 THEN Lab ELSE pose[i]

Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

Seldom(S, default) == IF Sampling /\ RandomElement(1..5) > 2 THEN {default} ELSE Pick(S)
Often(S, default) == IF Sampling /\ RandomElement(1..4) = 1 THEN {default} ELSE Pick(S)

OneJump(i) ==
    {<<>>} \cup {<<[k |-> k, to |-> t, n |-> n]>> :
                 k \in JumpKinds \ {3}, t \in 1..MaxComps, n \in {0}}
           \cup {<<[k |-> 3, to |-> t, n |-> n]>> :
                 t \in (IF 3 \in JumpKinds THEN 1..i ELSE {}), n \in {2, 3}}
JumpChoices(i) ==
    IF Sampling /\ RandomElement(1..4) = 1 THEN {a \o b : a \in {RandomElement(OneJump(i))}, b \in {RandomElement(OneJump(i))}}
    ELSE OneJump(i)

RefChoices(i) == IF Refs = "any" THEN 0..(i - 1) ELSE {i - 1}
RRefChoices(i) == IF Refs = "any" THEN (-1)..(i - 1) ELSE {-1}

LastGroup == IF Len(cfg) = 0 THEN 0 ELSE
             MaxOf({cfg[i].grp : i \in 1..Len(cfg)})
(* Components which do nothing, as Arms, may stand between the members of a GROUP *)
Idle(c) == ~c.act /\ c.jump = <<>> /\ c.split = 0
InsideGroup(c, i) == \E g \in {c[k].grp : k \in 1..Len(c)} \ {0} :
                        (\E a \in 1..(i - 1) : c[a].grp = g) /\ (\E b \in i..Len(c) : c[b].grp = g)
GroupChoices ==
    IF ~Groups THEN {0}
    ELSE {0, LastGroup + 1} \cup
         (IF LastGroup > 0 /\ \A i \in 1..Len(cfg) : i > MaxOf(Members(LastGroup)) => Idle(cfg[i]) THEN {LastGroup} ELSE {})

(* A source that cannot be modelled meaningfully is never built:            *)
(* JUMPs out of or into the middle of a GROUP, and JUMPs from inside a      *)
(* SPLIT region (see the known finding in DESIGN.md).                       *)
JumpsOk(c) ==
    \A i \in 1..Len(c) : \A k \in 1..Len(c[i].jump) :
        LET t == c[i].jump[k].to IN
        /\ t <= Len(c)
        /\ c[i].grp = 0
        /\ ~InsideGroup(c, t)
        /\ \A s \in 1..i : c[s].split = 0
SplitsOk(c) ==
    \A i \in 1..Len(c) :
        c[i].split > 0 => ~InsideGroup(c, i)
ArmsOk(c) == \A i \in 1..Len(c) : ~c[i].act => (c[i].grp = 0 /\ c[i].ext = 0)
WellFormed(c) == JumpsOk(c) /\ SplitsOk(c) /\ ArmsOk(c)

AddComp ==
    /\ phase = "build" /\ Len(cfg) < MaxComps
    /\ \E arm \in Seldom(Arms, FALSE), w \in Seldom(Whens, 0), s \in Seldom(Splits, 0), g \in Pick(GroupChoices),
          e \in Pick(Exts), a \in Pick(Ats), q \in Often(Rots, Zero3) :
       \E j \in Seldom(JumpChoices(Len(cfg) + 1), <<>>), ar \in Pick(RefChoices(Len(cfg) + 1)),
          rr \in Pick(RRefChoices(Len(cfg) + 1)) :
         LET gg == IF arm THEN 0 ELSE g
             ss == IF gg > 0 /\ gg = LastGroup THEN 0 ELSE s
             jj == IF gg > 0 \/ ss > 0 \/ \E k \in 1..Len(cfg) : cfg[k].split > 0 THEN <<>> ELSE j
             rb == IF rr = -1 THEN ar ELSE rr
             qq == IF rr = -1 THEN Zero3 ELSE q
         IN
         /\ cfg' = Append(cfg, [act |-> ~arm, when |-> IF arm THEN 0 ELSE w, split |-> ss, grp |-> gg,
                                ext |-> IF arm THEN 0 ELSE e,
                                jump |-> jj, at |-> a, aref |-> ar, rot |-> qq, rref |-> rr])
         /\ pose' = Append(pose, Compose(PoseOf(ar), a, PoseOf(rb), qq))
    /\ UNCHANGED <<phase, part, pending, log, script>>

Start(c) == [at |-> 1, p |-> Zero3, v |-> <<0, 0, 1>>, t |-> 0, num |-> 1, den |-> 1, flag |-> 0,
             splat |-> 0, iter |-> [i \in 1..Len(c) |-> [k \in 1..Len(c[i].jump) |-> 0]],
             entry |-> [g |-> 0]]

Built ==
    /\ phase = "build" /\ Len(cfg) > 0 /\ WellFormed(cfg)
    /\ phase' = "run" /\ part' = Start(cfg) /\ UNCHANGED <<cfg, pose, pending, log, script>>
------------------------------------------------------------------------------
(* Run phase *)
N == Len(cfg)
Here == cfg[part.at]
Alive == phase = "run" /\ part.at \in 1..N

Phys(x) == [p |-> x.p, v |-> x.v, t |-> x.t, num |-> x.num, den |-> x.den]
WithPhys(x, y) == [x EXCEPT !.p = y.p, !.v = y.v, !.t = y.t, !.num = y.num, !.den = y.den]

(* SPLIT: the rest of the sequence once per copy *)
Splitting == Alive /\ Here.split > 0 /\ part.splat # part.at
DoSplit ==
    /\ Splitting
    /\ LET copy == [part EXCEPT !.splat = part.at, !.den = @ * Here.split]
       IN /\ part' = copy
          /\ pending' = [i \in 1..(Here.split - 1) |-> copy] \o pending
    /\ UNCHANGED <<phase, cfg, pose, log, script>>

Ready == Alive /\ ~Splitting

WhenHolds == CASE Here.when = 0 -> TRUE [] Here.when = 1 -> part.flag = 1 [] OTHER -> part.flag = 0

(* state on entry of the current GROUP; members see the particle in it *)
Entered(x) ==
    IF Here.grp = 0 THEN x
    ELSE IF x.at # MinOf(Members(Here.grp)) THEN x
    ELSE [x EXCEPT !.entry = [g |-> Here.grp, s |-> Phys(x)]]

IsLast(i) == cfg[i].grp > 0 /\ i = MaxOf(Members(cfg[i].grp))

Kill(x) == [x EXCEPT !.at = 0]

(* after the component has (or has not) acted: GROUP, then JUMP, then next *)
GroupStep(x, scattered) ==
    IF scattered THEN [x EXCEPT !.at = MaxOf(Members(Here.grp)) + 1]
    ELSE IF IsLast(x.at) THEN Kill(x)
    ELSE [WithPhys(x, x.entry.s) EXCEPT !.at = x.at + 1]

(* all JUMPs of the component are considered, the last one taken decides *)
JumpStep(x) ==
    LET js == Here.jump
        Again(k) == js[k].k = 3 /\ x.iter[x.at][k] + 1 < js[k].n
        Taken(k) == (js[k].k = 1 /\ x.flag = 1) \/ (js[k].k = 2 /\ x.flag = 0) \/ Again(k)
        y == [x EXCEPT !.iter = [@ EXCEPT ![x.at] =
                 [k \in 1..Len(js) |-> IF Again(k) THEN @[k] + 1 ELSE 0]]]
        takens == {k \in 1..Len(js) : Taken(k)}
    IN IF takens = {} THEN [y EXCEPT !.at = @ + 1]
       ELSE LET t == js[MaxOf(takens)].to
                from == PoseOf(x.at)
                to == PoseOf(t)
            IN [y EXCEPT !.at = t, !.p = ToLab(to, ToLocal(from, x.p)),
                         !.v = DirToLab(to, DirToLocal(from, x.v))]

Next_(x, scattered) == IF Here.grp > 0 THEN GroupStep(x, scattered) ELSE JumpStep(x)

Seen(x) ==
    LET h == PoseOf(x.at)
    IN [i |-> x.at, p |-> ToLocal(h, x.p), v |-> DirToLocal(h, x.v), t |-> x.t,
        num |-> x.num, den |-> x.den, flag |-> x.flag]

Extended(x, scattered) ==
    CASE Here.ext = 0 -> x [] Here.ext = 1 -> [x EXCEPT !.flag = 1]
      [] Here.ext = 2 -> [x EXCEPT !.flag = IF scattered THEN 1 ELSE 0]
      [] OTHER -> [x EXCEPT !.flag = 0]

(* not executed: a place holder, or WHEN does not hold *)
Skip ==
    /\ Ready /\ (~Here.act \/ ~WhenHolds)
    /\ part' = Next_(Entered(part), FALSE)
    /\ UNCHANGED <<phase, cfg, pose, pending, log, script>>

Moved(x, n) ==
    LET h == PoseOf(x.at)
        l == ToLocal(h, x.p)
    IN [x EXCEPT !.p = ToLab(h, <<l[1] + n, l[2], l[3]>>), !.t = @ + n]
Turned(x) ==
    LET h == PoseOf(x.at)
        d == DirToLocal(h, x.v)
    IN [x EXCEPT !.v = DirToLab(h, <<d[2], d[3], d[1]>>), !.num = @ * 2]

Act(o) ==
    /\ Ready /\ Here.act /\ WhenHolds /\ Len(log) < MaxLog
    /\ log' = Append(log, Seen(part))
    /\ script' = Append(script, o)
    /\ LET e == Entered(part)
           scattered == o \in {2, 5, 6}
           moved == CASE o \in {1, 4} -> Moved(e, 1)
                      [] o = 2 -> Turned(Moved(e, 2))
                      [] OTHER -> e
           x == Extended(moved, scattered)
           y == IF o \in {4, 5} THEN WithPhys(x, Phys(part)) ELSE x
           \* what a GROUP member absorbs without scattering is offered to the next member
       IN part' = IF o = 3 /\ Here.grp > 0 THEN Next_(e, FALSE)
                  ELSE IF o \in {3, 6} THEN Kill(e)
                  ELSE Next_(y, scattered)
    /\ UNCHANGED <<phase, cfg, pose, pending>>

(* the particle ended: continue with the next copy, or stop *)
NextCopy ==
    /\ phase = "run" /\ part.at \notin 1..N /\ Len(pending) > 0
    /\ part' = Head(pending) /\ pending' = Tail(pending)
    /\ UNCHANGED <<phase, cfg, pose, log, script>>

Finish ==
    /\ phase = "run" /\ part.at \notin 1..N /\ Len(pending) = 0
    /\ phase' = "done"
    /\ Emit([cfg |-> cfg, script |-> script, log |-> log,
             poses |-> [i \in 1..N |-> PoseOf(i)]])
    /\ UNCHANGED <<cfg, pose, part, pending, log, script>>
------------------------------------------------------------------------------
InitBuild == /\ phase = "build" /\ cfg = <<>> /\ pose = <<>>
             /\ part = NoPart /\ pending = <<>> /\ log = <<>> /\ script = <<>>
Files == IF CfgFile = "" THEN <<>> ELSE ndJsonDeserialize(CfgFile)
RECURSIVE Poses(_, _)
Poses(c, done) ==
    IF Len(done) = Len(c) THEN done
    ELSE LET k == c[Len(done) + 1]
             ref(i) == IF i = 0 THEN Lab ELSE done[i]
             rb == IF k.rref = -1 THEN k.aref ELSE k.rref
             q == IF k.rref = -1 THEN Zero3 ELSE k.rot
         IN Poses(c, Append(done, Compose(ref(k.aref), k.at, ref(rb), q)))
InitFile == /\ \E i \in 1..Len(Files) : cfg = Files[i].cfg
            /\ pose = Poses(cfg, <<>>)
            /\ phase = "run" /\ part = Start(cfg)
            /\ pending = <<>> /\ log = <<>> /\ script = <<>>
Init == IF CfgFile = "" THEN InitBuild ELSE InitFile

Run == DoSplit \/ Skip \/ (\E o \in Outcomes : Act(o)) \/ NextCopy \/ Finish
Next == AddComp \/ Built \/ Run
Spec == Init /\ [][Next]_vars

(* Emitting instruments only (build phase) *)
BuildOnly == /\ phase = "build"
             /\ \/ AddComp
                \/ /\ Len(cfg) = MaxComps /\ WellFormed(cfg) /\ Emit([cfg |-> cfg])
                   /\ phase' = "built" /\ UNCHANGED <<cfg, pose, part, pending, log, script>>
SpecBuild == InitBuild /\ [][BuildOnly]_vars
------------------------------------------------------------------------------
(* What must hold of the model itself *)
TypeOK == /\ phase \in {"build", "run", "done", "built"}
          /\ Len(log) = Len(script)

(* total weight is conserved by SPLIT: the copies of one particle that have *)
(* not been doubled each carry an equal share *)
RECURSIVE SumShare(_)
SumShare(s) == IF s = <<>> THEN 0 ELSE (720720 \div Head(s).den) + SumShare(Tail(s))
WeightBounded ==
    phase = "run" => SumShare(pending) + (IF part.at \in 1..N THEN 720720 \div part.den ELSE 0) <= 720720

(* in one pass through a GROUP at most one member ends up with the particle *)
GroupExclusive ==
    \A a, b \in 1..Len(log) :
        (a < b /\ \A k \in a..(b - 1) : log[k + 1].i = log[k].i + 1)
        => (script[a] \in {2, 5, 6} /\ cfg[log[a].i].grp > 0
            => ~(b = a + 1 /\ cfg[log[b].i].grp = cfg[log[a].i].grp /\ log[b].i > log[a].i
                 /\ Len(pending) = 0 /\ \A s \in 1..N : cfg[s].split = 0))

(* all members of a GROUP see the same laboratory point on entry *)
SameLab(a, b) ==
    LET pa == PoseOf(log[a].i) pb == PoseOf(log[b].i)
    IN ToLab(pa, log[a].p) = ToLab(pb, log[b].p) /\ DirToLab(pa, log[a].v) = DirToLab(pb, log[b].v)
GroupSameEntry ==
    \A a \in 1..(Len(log) - 1) :
        (/\ cfg[log[a].i].grp > 0 /\ cfg[log[a + 1].i].grp = cfg[log[a].i].grp
         /\ log[a + 1].i > log[a].i /\ script[a] \notin {2, 5, 6}
         /\ \A s \in 1..N : cfg[s].split = 0)
        => SameLab(a, a + 1)
=============================================================================
