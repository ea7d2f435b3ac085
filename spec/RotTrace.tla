--------------------------------- MODULE RotTrace --------------------------------
(* Recorded quaternion, rotation and polar operations.  Inputs are whole numbers or *)
(* angles given by cosine c/h and sine s/h; outputs are in units of 1/1024, rounded, *)
(* off by at most e.tol.                                                            *)
EXTENDS Rot, TraceKit
VARIABLE l
U == 1024
RECURSIVE Chain(_)
Chain(qs) == IF qs = <<>> THEN <<0, 0, 0, 1>> ELSE QMul(Chain(Tail(qs)), Head(qs))
MyOk(E) == LET
Near(out, num, d) == Abs(out * d - U * num) <= E.tol * d
NearVec(out, nums, d) == Len(out) = Len(nums) /\ \A i \in DOMAIN nums : Near(out[i], nums[i], d)
NearEither(out, nums, d) == NearVec(out, nums, d) \/ NearVec(out, VScale(-1, nums), d)
\* products of outputs
Near2(a, num, d) == Abs(a - U * ((U * num) \div d)) <= (8 + 2 * E.tol) * U
Unit(q) == Near2(Mag2(q), 1, 1)
\* the matrix of a unit quaternion in output units, against a rational one
IsTurn(q, x) == LET m == RotQuatM(q) IN Unit(q) /\ \A i, j \in 1..3 : Near2(m[i][j], Lin(x.f)[i][j], x.f.d)
\* half a turn taking u (length L) to -u
HalfTurn(q, u, L) == Unit(q) /\ Abs(q[4]) <= E.tol /\ Abs(Dot(Im(q), u)) <= (E.tol + 1) * 2 * L
HalfTurnM(m, u, L) == LET mm == MMul(m, Transp(m)) IN
                      /\ NearVec(MVec(m, u), VScale(-U * L, u), L * U)
                      /\ \A i, j \in 1..3 : Near2(mm[i][j], IF i = j THEN 1 ELSE 0, 1)
                      /\ Abs((m[1][1] + m[2][2]) + m[3][3] + U) <= 16

Q(k) == QAxis(E.u, E.L, E.c, E.s, E.h, k)
QD(k) == QAxisDen(E.L, E.h, k)
\* values times two to the k (k of either sign): numerators and denominator
Up(v, k) == VScale(IF k > 0 THEN Pow(2, k) ELSE 1, v)
UpDen(d, k) == d * (IF k < 0 THEN Pow(2, -k) ELSE 1)
ScaledNear(out, v, d, k) == NearVec(out, Up(v, k), UpDen(d, k))

  IN
  CASE E.op = "Mul" -> /\ E.ret = QMul(E.p, E.q) /\ E.ret2 = E.ret
                       /\ E.conj = QConj(E.p) /\ E.conj2 = E.conj
                       /\ E.im = Im(E.p) /\ E.re = E.p[4]
                       /\ E.fwd = Turn(E.p, E.v) /\ E.bwd = Turn(QConj(E.p), E.v)
    [] E.op = "Chain" -> LET q == Chain(E.qs) IN NearVec(E.fwd, Turn(q, E.v), Mag2(q)) /\ NearVec(E.bwd, Turn(QConj(q), E.v), Mag2(q))
    [] E.op = "AxisAngle" -> NearVec(E.ret, Q(E.k), QD(E.k))
    [] E.op = "NoAxis" -> E.ret = <<0, 0, 0, U>>
    [] E.op = "Align" -> E.miss \in 0..1 /\ IF E.near THEN Unit(E.ret) /\ Abs(E.ret[4]) <= 64
                         ELSE IF VAdd(E.u, E.v) = VZero(3) THEN HalfTurn(E.ret, E.u, E.L) ELSE IsTurn(E.ret, RotAlign(E.u, E.v, E.L))
    [] E.op = "AlignVec" -> E.miss \in 0..1 /\ IF E.near THEN \A i, j \in 1..3 : Near2(MMul(E.mat, Transp(E.mat))[i][j], IF i = j THEN 1 ELSE 0, 1)
                            ELSE IF VAdd(E.u, E.v) = VZero(3) THEN HalfTurnM(E.mat, E.u, E.L)
                            ELSE LET x == RotAlign(E.u, E.v, E.L) IN \A i \in 1..3 : NearVec(E.mat[i], Lin(x.f)[i], x.f.d)
    \* the axis and the cosine and sine of half the angle, of a unit quaternion
    [] E.op = "ToAxis" -> /\ Near2(Mag2(E.axis), 1, 1) /\ 0 <= E.ang /\ E.ang <= 6435
                          /\ LET out == Append(VScale(E.sin, E.axis), U * E.cos) IN
                             \/ \A i \in 1..4 : Near2(out[i], Q(E.k)[i], QD(E.k))
                             \/ \A i \in 1..4 : Near2(out[i], -Q(E.k)[i], QD(E.k))
    [] E.op = "AngVel" -> IF Im(Q(E.k)) = VZero(3) THEN E.axis = VZero(3)
                          ELSE LET out == Append(VScale(E.sin, E.axis), U * E.cos) IN
                             \/ \A i \in 1..4 : Near2(out[i], Q(E.k)[i], QD(E.k))
                             \/ \A i \in 1..4 : Near2(out[i], -Q(E.k)[i], QD(E.k))
    \* j/k of the way to a rotation
    [] E.op = "Scale" -> NearVec(E.ret, Q(E.j), QD(E.j))
    [] E.op = "Slerp" -> NearVec(E.ret, QMul(E.p, Q(E.j)), E.pm * QD(E.j))
    \* between any two: both ends, on a unit sphere, in the plane of both, through the nearer arc
    [] E.op = "SlerpEnds" -> /\ NearVec(E.at0, E.p, E.pm) /\ NearEither(E.at1, E.q, E.qm)
                             /\ Unit(E.mid)
                             /\ Abs(Mag2(VSub(E.mid, E.at0)) - Mag2(VSub(E.mid, E.at1))) <= (8 + 4 * E.tol) * U
                             /\ Dot(E.at0, E.at1) >= -4 * U
                             /\ \A i, j \in 1..4 : Abs((E.mid[i] * (E.at0[j] + E.at1[j])) - (E.mid[j] * (E.at0[i] + E.at1[i]))) <= (8 + 4 * E.tol) * U
    [] E.op = "Exp" -> ScaledNear(E.ret, Q(E.k), QD(E.k), E.e) /\ E.ret2 = E.ret
    \* the axis times the angle, as direction, cosine and sine; and e to the real part
    [] E.op = "Log" -> /\ ScaledNear(<<E.re>>, <<1>>, 1, E.e) /\ E.ret2 = E.ret /\ 0 <= E.ang /\ E.ang <= 3218
                       /\ Near2(Mag2(E.axis), 1, 1) \/ E.ang <= E.tol
                       /\ \A i \in 1..4 : Near2(Append(VScale(E.sin, E.axis), U * E.cos)[i], Q(E.k)[i], QD(E.k))
    [] E.op = "Pow" -> IF E.j >= 0 THEN ScaledNear(E.ret, Q(E.j), QD(E.j), E.e * E.j)
                       ELSE ScaledNear(E.ret, QConj(Q(-E.j)), QD(-E.j), E.e * E.j)
    [] E.op = "Spin" -> LET x == IF "ctr" \in DOMAIN E THEN About(RotAxis(E.u, E.L, E.c, E.s, E.h), E.ctr) ELSE RotAxis(E.u, E.L, E.c, E.s, E.h)
                        IN  NearVec(E.ret, OnPoint(x.f, E.v), x.f.d) /\ E.ret2 = E.ret
    [] E.op = "Rotmat" -> LET r == RotAxis(E.u, E.L, E.c, E.s, E.h)
                              x == IF "ctr" \in DOMAIN E THEN About(r, E.ctr) ELSE r
                          IN  /\ Len(E.mat) \in {3, 4} /\ ("ctr" \in DOMAIN E => Len(E.mat) = 4)
                              /\ IF Len(E.mat) = 4 THEN \A i \in 1..4 : NearVec(E.mat[i], x.f.m[i], x.f.d)
                                 ELSE \A i \in 1..3 : NearVec(E.mat[i], Lin(x.f)[i], x.f.d)
    [] E.op = "Turn2" -> LET x == IF "ctr" \in DOMAIN E THEN About(RotPlane(E.c, E.s, E.h), E.ctr) ELSE RotPlane(E.c, E.s, E.h)
                         IN  NearVec(E.ret, OnPoint(x.f, E.v), x.f.d)
    \* v has length L; v.xy has length M
    [] E.op = "Spherical" -> /\ Near(E.r, E.L, 1) /\ Near(E.ce, E.v[3], E.L) /\ Near(E.se, E.M, E.L)
                             /\ E.M > 0 => Near(E.ca, E.v[1], E.M) /\ Near(E.sa, E.v[2], E.M)
                             /\ NearVec(E.back, E.v, 1) /\ 0 <= E.elev /\ E.elev <= 3218 /\ Abs(E.azi) <= 3218
    [] E.op = "FromSpherical" -> NearVec(E.ret, <<E.r * E.s * E.c2, E.r * E.s * E.s2, E.r * E.c * E.h2>>, E.h * E.h2)
    [] E.op = "Polar" -> /\ Near(E.r, E.L, 1) /\ Near(E.ca, E.v[1], E.L) /\ Near(E.sa, E.v[2], E.L) /\ 0 <= E.ang /\ E.ang <= 6435
                         /\ E.ang2 = E.ang /\ NearVec(E.back, E.v, 1)
    [] E.op = "FromPolar" -> NearVec(E.ret, <<E.r * E.c, E.r * E.s>>, E.h)
    [] E.op = "AngleTo" -> Near(E.cos, Dot(E.u, E.v), E.L * E.M) /\ 0 <= E.ang /\ E.ang <= 3218 /\ E.cos2 = E.cos
    [] E.op = "Casts" -> E.f = E.q /\ E.d = E.q /\ E.ident = <<0, 0, 0, 1>> /\ E.eq = (E.p = E.q) /\ (E.p = E.q => E.hash)
    [] OTHER -> FALSE

F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
==================================================================================
