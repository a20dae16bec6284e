----------------------------- MODULE Placement ------------------------------
(* Placement of components (P08): AT v RELATIVE a ROTATED q RELATIVE b,     *)
(* along arbitrary reference chains, and the algebra of transformations     *)
(* the placements are made of.                                              *)
EXTENDS Exact, FiniteSets, Emit

CONSTANTS
    MaxComps,    \* components of an instrument
    Ats, Rots,   \* displacements and rotations
    MaxOps,      \* operations on the accumulated transformation
    Axes, Vecs,  \* generators: [1..3, turn] and displacements
    Sampling,
    Mode         \* "place" or "algebra"

VARIABLES comps, poses, acc, saved, log, phase
vars == <<comps, poses, acc, saved, log, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S

(* a pose: where the origin is (p/5^pk) and the rotation from laboratory to local directions *)
LabPose == [p |-> Zero3, pk |-> 0, r |-> One]
RECURSIVE Lower(_, _)
Lower(v, k) == IF k > 0 /\ \A i \in 1..3 : v[i] % 5 = 0 THEN Lower([i \in 1..3 |-> Fifth(v[i])], k - 1) ELSE <<v, k>>
PoseOf(i) == IF i = 0 THEN LabPose ELSE poses[i]
Placed(c) ==
    LET a == PoseOf(c.aref)
        inv == Transpose(a.r.n)                          \* local to laboratory, over 5^a.r.k
        d == Apply(inv, c.at)
        k == IF a.pk > a.r.k THEN a.pk ELSE a.r.k
        pos == Lower(Plus(Scale(Pow5(k - a.pk), a.p), Scale(Pow5(k - a.r.k), d)), k)
    IN [p |-> pos[1], pk |-> pos[2], r |-> After(Rotated(c.rot), PoseOf(c.rref).r)]

Place ==
    /\ Mode = "place" /\ phase = "run" /\ Len(comps) < MaxComps
    /\ \E at \in Pick(Ats), rot \in Pick(Rots), a \in Pick(0..Len(comps)), b \in Pick(0..Len(comps)) :
        LET c == [at |-> at, aref |-> a, rot |-> rot, rref |-> b]
        IN comps' = Append(comps, c) /\ poses' = Append(poses, Placed(c))
    /\ UNCHANGED <<acc, saved, log, phase>>

Generators == {[g |-> a[1], q |-> a[2], v |-> Zero3] : a \in Axes} \cup {[g |-> 0, q |-> 0, v |-> v] : v \in Vecs}
Element(g) == IF g.g = 0 THEN Shift(g.v) ELSE Turn(g.g, g.q)
NoGen == [g |-> 0, q |-> 0, v |-> Zero3]

(* the accumulated chain: what is added comes after what is there *)
Act(op, g) ==
    CASE op = "plus" -> After(Element(g), acc)
      [] op = "minus" -> After(Inverse(Element(g)), acc)
      [] op = "plus saved" -> After(saved, acc)
      [] op = "minus saved" -> After(Inverse(saved), acc)
      [] op = "inverse" -> Inverse(acc)
      [] op = "reduce" -> acc
      [] op = "save" -> acc
Ops == {"plus", "minus", "plus saved", "minus saved", "inverse", "reduce", "save"}
Step ==
    /\ Mode = "algebra" /\ phase = "run" /\ Len(log) < MaxOps
    /\ \E op \in Pick(Ops) : \E g \in (IF op \in {"plus", "minus"} THEN Pick(Generators) ELSE {NoGen}) :
        /\ acc' = Act(op, g)
        /\ saved' = IF op = "save" THEN acc ELSE saved
        /\ log' = Append(log, [op |-> op, gen |-> g, e |-> acc'])
    /\ acc.k + saved.k <= 6                              \* keeps the integers small
    /\ UNCHANGED <<comps, poses, phase>>

Done ==
    /\ phase = "run" /\ phase' = "done"
    /\ IF Mode = "place" THEN Len(comps) = MaxComps ELSE (Len(log) = MaxOps \/ acc.k + saved.k > 6)
    /\ Emit(IF Mode = "place" THEN [comps |-> comps, poses |-> poses] ELSE [log |-> log])
    /\ UNCHANGED <<comps, poses, acc, saved, log>>

Init == comps = <<>> /\ poses = <<>> /\ acc = One /\ saved = One /\ log = <<>> /\ phase = "run"
Next == Place \/ Step \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Orthogonal(e) == Mul(e.n, Transpose(e.n)) = [i \in 1..3 |-> Scale(Pow5(e.k) * Pow5(e.k), Identity[i])]
(* all rotations stay rotations *)
PosesAreRotations == \A i \in 1..Len(poses) : poses[i].r.k <= 5 => Orthogonal(poses[i].r)
(* an inverse undoes, from either side *)
InverseLaw == (acc.k <= 2) => After(acc, Inverse(acc)) = One /\ After(Inverse(acc), acc) = One
AccIsRotation == acc.k <= 5 => Orthogonal(Rot(acc))
(* with equal references the pose is that of the single transformation *)
SamePlaceSameReference ==
    \A i, j \in 1..Len(comps) : comps[i] = comps[j] => poses[i] = poses[j]
=============================================================================
