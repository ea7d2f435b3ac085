----------------------------------- MODULE Rot -----------------------------------
(* Quaternions <<x, y, z, w>> of whole numbers, and their powers.                   *)
EXTENDS Affine

Im(q) == SubSeq(q, 1, 3)
QMul(p, q) == LET v == VAdd(VAdd(VScale(p[4], Im(q)), VScale(q[4], Im(p))), Cross(Im(p), Im(q)))
              IN  Append(v, p[4] * q[4] - Dot(Im(p), Im(q)))
QConj(q) == <<-q[1], -q[2], -q[3], q[4]>>
\* q v q'
Turn(q, v) == Im(QMul(QMul(q, Append(v, 0)), QConj(q)))

\* the matrix of q, times |q|^2
RotQuatM(q) == LET x == q[1] y == q[2] z == q[3] w == q[4] IN
    <<<<(w*w + x*x) - (y*y + z*z), 2*(x*y - z*w), 2*(x*z + y*w)>>,
      <<2*(x*y + z*w), (w*w + y*y) - (x*x + z*z), 2*(y*z - x*w)>>,
      <<2*(x*z - y*w), 2*(y*z + x*w), (w*w + z*z) - (x*x + y*y)>>>>

(* the j-th power of the unit complex number (c + i s)/h, over h^j *)
RECURSIVE CPow(_, _, _)
CPow(c, s, j) == IF j = 0 THEN <<1, 0>> ELSE LET p == CPow(c, s, j - 1) IN <<p[1] * c - p[2] * s, p[1] * s + p[2] * c>>
RECURSIVE Pow(_, _)
Pow(b, j) == IF j = 0 THEN 1 ELSE b * Pow(b, j - 1)
(* the quaternion with axis u (length L) and half angle j times that of c/h, s/h:    *)
(* numerators over L h^j                                                           *)
QAxis(u, L, c, s, h, j) == LET p == CPow(c, s, j) IN Append(VScale(p[2], u), L * p[1])
QAxisDen(L, h, j) == L * Pow(h, j)
==================================================================================
