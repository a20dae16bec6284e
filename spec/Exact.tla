------------------------------- MODULE Exact --------------------------------
(* Placements with exact coordinates beyond the cube group: rotations by    *)
(* quarter turns and by the angles of the 3-4-5 triangle about any axis,    *)
(* whose products are dense in all rotations. A transformation is           *)
(* [n, t, k]: the matrix n/5^k and the displacement t/5^k.                  *)
EXTENDS Cube

(* the turns: 0..3 quarter turns; 4: cos 4/5 sin 3/5; 5: its inverse; 6: cos 3/5 sin 4/5; 7: cos -3/5 sin 4/5 *)
Turns == 0..7
TurnExp(q) == IF q <= 3 THEN 0 ELSE 1
TCos(q) == CASE q = 4 -> 4 [] q = 5 -> 4 [] q = 6 -> 3 [] q = 7 -> -3 [] OTHER -> Cos(q)
TSin(q) == CASE q = 4 -> 3 [] q = 5 -> -3 [] q = 6 -> 4 [] q = 7 -> 4 [] OTHER -> Sin(q)
TOne(q) == IF q <= 3 THEN 1 ELSE 5
TurnX(q) == <<<<TOne(q), 0, 0>>, <<0, TCos(q), TSin(q)>>, <<0, -TSin(q), TCos(q)>>>>
TurnY(q) == <<<<TCos(q), 0, -TSin(q)>>, <<0, TOne(q), 0>>, <<TSin(q), 0, TCos(q)>>>>
TurnZ(q) == <<<<TCos(q), TSin(q), 0>>, <<-TSin(q), TCos(q), 0>>, <<0, 0, TOne(q)>>>>

RECURSIVE Pow5(_)
Pow5(k) == IF k = 0 THEN 1 ELSE 5 * Pow5(k - 1)
Scale(s, v) == [i \in DOMAIN v |-> s * v[i]]

Divisible(e) == e.k > 0 /\ (\A i, j \in 1..3 : e.n[i][j] % 5 = 0) /\ (\A i \in 1..3 : e.t[i] % 5 = 0)
Fifth(x) == IF x < 0 THEN -((-x) \div 5) ELSE x \div 5
RECURSIVE Norm(_)
Norm(e) == IF Divisible(e) THEN Norm([n |-> [i \in 1..3 |-> [j \in 1..3 |-> Fifth(e.n[i][j])]],
                                      t |-> [i \in 1..3 |-> Fifth(e.t[i])], k |-> e.k - 1])
           ELSE e

One == [n |-> Identity, t |-> Zero3, k |-> 0]
Turn(axis, q) == [n |-> CASE axis = 1 -> TurnX(q) [] axis = 2 -> TurnY(q) [] axis = 3 -> TurnZ(q), t |-> Zero3, k |-> TurnExp(q)]
Shift(v) == [n |-> Identity, t |-> v, k |-> 0]

(* first b, then a: v -> a (b v) *)
After(a, b) == Norm([n |-> Mul(a.n, b.n), k |-> a.k + b.k,
                     t |-> Plus(Apply(a.n, b.t), Scale(Pow5(b.k), a.t))])
Inverse(e) == LET r == Transpose(e.n) IN
    IF e.k = 0 THEN [n |-> r, k |-> 0, t |-> Scale(-1, Apply(r, e.t))]
    ELSE Norm([n |-> [i \in 1..3 |-> Scale(Pow5(e.k), r[i])], k |-> 2 * e.k, t |-> Scale(-1, Apply(r, e.t))])
(* the image of the point v/5^j *)
Image(e, v, j) == <<Plus(Apply(e.n, v), Scale(Pow5(j), e.t)), e.k + j>>

(* ROTATED (x, y, z): first about x, then about the new y, then the new z *)
Rotated(q) == After(Turn(3, q[3]), After(Turn(2, q[2]), Turn(1, q[1])))
Rot(e) == Norm([e EXCEPT !.t = Zero3])
=============================================================================
