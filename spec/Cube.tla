-------------------------------- MODULE Cube --------------------------------
(* The rotations by multiples of 90 degrees and integer displacements: an   *)
(* exactly computable subgroup of the placements an instrument can have.    *)
(* A rotation is a 3x3 matrix (sequence of rows) that maps coordinates in   *)
(* the reference frame onto coordinates in the rotated frame.               *)
EXTENDS Integers, Sequences

Zero3 == <<0, 0, 0>>
Identity == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>

Cos(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 2 -> -1 [] OTHER -> 0
Sin(q) == CASE q % 4 = 1 -> 1 [] q % 4 = 3 -> -1 [] OTHER -> 0

(* coordinate rotation by q quarter turns about one axis *)
RotX(q) == <<<<1, 0, 0>>, <<0, Cos(q), Sin(q)>>, <<0, -Sin(q), Cos(q)>>>>
RotY(q) == <<<<Cos(q), 0, -Sin(q)>>, <<0, 1, 0>>, <<Sin(q), 0, Cos(q)>>>>
RotZ(q) == <<<<Cos(q), Sin(q), 0>>, <<-Sin(q), Cos(q), 0>>, <<0, 0, 1>>>>

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Column(m, j) == <<m[1][j], m[2][j], m[3][j]>>
Mul(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(a[i], Column(b, j))]]
Transpose(m) == [i \in 1..3 |-> Column(m, i)]
Apply(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Det(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
        - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
        + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])

(* ROTATED (x, y, z): first about x, then about the new y, then the new z *)
Rotation(q) == Mul(RotZ(q[3]), Mul(RotY(q[2]), RotX(q[1])))

Quarters == {<<x, y, z>> : x \in 0..3, y \in 0..3, z \in 0..3}
CubeGroup == {Rotation(q) : q \in Quarters}

(* A pose: position in the laboratory, and laboratory-to-local rotation.    *)
Lab == [p |-> Zero3, r |-> Identity]
ToLocal(pose, v) == Apply(pose.r, Minus(v, pose.p))
ToLab(pose, v) == Plus(pose.p, Apply(Transpose(pose.r), v))
DirToLocal(pose, v) == Apply(pose.r, v)
DirToLab(pose, v) == Apply(Transpose(pose.r), v)

(* AT a RELATIVE at-pose, ROTATED q RELATIVE rot-pose *)
Compose(atpose, at, rotpose, q) ==
    [p |-> ToLab(atpose, at), r |-> Mul(Rotation(q), rotpose.r)]
=============================================================================
