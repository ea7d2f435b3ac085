--------------------------------- MODULE RotModel --------------------------------
(* A rotation built step by step from quaternions, beside the matrix of the same    *)
(* steps and a point carried along: all three agree.                                *)
EXTENDS Rot
CONSTANT Steps
VARIABLES q, x, k
vars == <<q, x, k>>
Qs == {<<1, 0, 0, 1>>, <<0, 1, 1, 0>>, <<1, -1, 1, 1>>, <<0, 0, 2, 1>>, <<0, 0, 0, -1>>, <<-1, 2, 0, 1>>}
Vs == {<<1, 0, 0>>, <<0, 1, 0>>, <<1, -2, 3>>}
Init == q = <<0, 0, 0, 1>> /\ x = XIdent(3) /\ k = 0
Next == k < Steps /\ k' = k + 1 /\ \E p \in Qs : q' = QMul(p, q) /\ x' = XThen(x, RotQuat(p))
Spec == Init /\ [][Next]_vars
Agree == /\ \A v \in Vs : VScale(x.f.d, Turn(q, v)) = VScale(Mag2(q), OnVector(x.f, v))
         /\ \A v \in Vs : VScale(x.g.d, Turn(QConj(q), v)) = VScale(Mag2(q), OnVector(x.g, v))
         /\ RotQuat(q).f = x.f
         /\ QMul(q, QConj(q)) = <<0, 0, 0, Mag2(q)>>
\* an axis and half angle make the quaternion of the rotation by twice that
Halves == \A u \in {<<1, 2, 2>>, <<0, 0, -3>>} : \A a \in {<<4, 3, 5>>, <<3, 4, 5>>, <<0, 1, 1>>} : \A j \in 0..2 :
            LET r == QAxis(u, 3, a[1], a[2], a[3], j) c == CPow(a[1], a[2], 2 * j)
            IN  /\ Mag2(r) = QAxisDen(3, a[3], j) * QAxisDen(3, a[3], j)
                /\ RotQuat(r).f = RotAxis(u, 3, c[1], c[2], Pow(a[3], 2 * j)).f
==================================================================================
