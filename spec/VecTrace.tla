--------------------------------- MODULE VecTrace ---------------------------------
(* Recorded operations on vectors and rays.  Whole results are recorded as they are;  *)
(* others in units of 1/e.un, with a tolerance of e.tol units.                         *)
EXTENDS Vec, TraceKit
VARIABLE l

All(x, fs) == \A i \in 1..Len(fs) : fs[i] = x
MyOk(E) == LET
  Near1(out, num, d) == Abs(out * d - E.un * num) <= E.tol * d
  Near(out, num, d) == Len(out) = Len(num) /\ \A i \in 1..Len(num) : Near1(out[i], num[i], d)
  \* out is the root of num/d
  NearRoot(out, num, d) == /\ out >= 0 /\ out <= 40000
                           /\ (out - E.tol <= 0 \/ (out - E.tol) * (out - E.tol) <= ((E.un * num) \div d + 1) * E.un)
                           /\ (out + E.tol) * (out + E.tol) >= ((E.un * num) \div d) * E.un
  IN
  CASE E.op = "Arith" -> /\ All(VAdd(E.a, E.b), E.add) /\ All(VSub(E.a, E.b), E.sub) /\ All(VMul(E.a, E.b), E.mul)
                         /\ All(VScale(E.s, E.a), E.scale) /\ All(VNeg(E.a), E.neg) /\ All(Dot(E.a, E.b), E.dot)
                         /\ All(Mag2(E.a), E.mag2) /\ E.dist2 = Mag2(VSub(E.a, E.b))
                         /\ E.eq = (E.a = E.b) /\ E.ne = (E.a # E.b) /\ E.self /\ E.hash /\ E.kept
    [] E.op = "Own" -> E.twice = VScale(2, E.a) /\ E.none = VZero(Len(E.a)) /\ E.square = VMul(E.a, E.a) /\ E.byfirst = VScale(E.a[1], E.a)
    [] E.op = "Div" -> LET F(u, v) == VTrunc(VScale(E.un, u), v) n == Len(E.a) IN
                       /\ All(F(E.a, E.b), E.vv) /\ All(F(E.a, Fill(E.s, n)), E.vs) /\ All(F(Fill(E.s, n), E.b), E.sv)
    [] E.op = "Round" -> LET n == Len(E.a) IN
                       /\ All([i \in 1..n |-> FloorQ(E.a[i], E.q)], E.floor) /\ All([i \in 1..n |-> CeilQ(E.a[i], E.q)], E.ceil)
                       /\ E.round = [i \in 1..n |-> RoundQ(E.a[i], E.q)] /\ All(Map(Abs, E.a), E.abs)
                       /\ E.toint = [i \in 1..n |-> Trunc(E.a[i], E.q)]
    [] E.op = "Order" -> /\ All(Zip(MinOf, E.a, E.b), E.min) /\ All(Zip(MaxOf, E.a, E.b), E.max) /\ E.least = Least(E.a) /\ E.most = Most(E.a)
                         /\ E.argmax = ArgMost(E.a) /\ E.argmin = ArgLeast(E.a) /\ E.clamp = VClamp(E.a, E.lo, E.hi)
    [] E.op = "Mix" -> E.ret = Mixed(E.a, E.b, E.t, E.q) /\ E.at0 = E.a /\ E.at1 = E.b
    [] E.op = "Project" -> LET m == Mag2(E.n) IN
                       IF m = 0 THEN E.on = VZero(Len(E.a))
                       ELSE Near(E.on, OnAxis(E.a, E.n), m) /\ Near1(E.frac, Dot(E.a, E.n), m)
    [] E.op = "ProjectInt" -> E.on = LET m == Mag2(E.n) IN IF m = 0 THEN VZero(Len(E.a)) ELSE [i \in 1..Len(E.a) |-> Trunc(E.n[i] * Dot(E.a, E.n), m)]
    [] E.op = "Mirror" -> LET m == Mag2(E.n) IN Near(E.ret, Mirrored(E.a, E.n), m) /\ Near(E.bounce, Bounced(E.a, E.n), m)
    [] E.op = "Length" -> /\ Near(E.unit, E.v, E.L) /\ Near1(E.mag, E.L, 1) /\ Near(E.with, VScale(E.m, E.v), E.L) /\ E.zero
                          /\ Near(E.neg, VScale(-E.m, E.v), E.L)
    [] E.op = "Dist" -> /\ NearRoot(E.mag, Mag2(E.a), 1) /\ NearRoot(E.dist, Mag2(VSub(E.a, E.b)), 1)
    [] E.op = "Angle" -> /\ Near1(E.cos, Dot(E.u, E.v), E.L * E.K) /\ E.range
                         /\ (E.par = 1 => E.ang <= E.slack) /\ (E.par = -1 => E.ang >= 3217 - E.slack)
    [] E.op = "Make" -> LET n == Len(E.a) IN
                       /\ All(E.a, E.same) /\ E.fill = Fill(E.s, n) /\ E.none = VZero(n) /\ E.ones = Fill(1, n) /\ E.zeros = VZero(n) /\ E.ux = Axis(1, n)
                       /\ E.short = [i \in 1..n |-> IF i <= E.k THEN E.a[i] ELSE 0] /\ E.axes = [i \in 1..Len(E.axes) |-> Axis(i, n)]
                       /\ E.iszero = (E.a = VZero(n)) /\ E.size = n
    [] E.op = "Write" -> All([i \in 1..Len(E.a) |-> IF i = E.k + 1 THEN E.s ELSE E.a[i]], E.rets)
    [] E.op = "Resize" -> E.ret = Resize(E.a, E.m)
    [] E.op = "Finite" -> E.ret = E.want
    [] E.op = "Perp" -> E.left = LeftOf(E.a) /\ E.right = RightOf(E.a)
    [] E.op = "Flip" -> E.rets = [k \in 1..Len(E.rets) |-> Flip(E.a, k)]
    [] E.op = "Cross" -> All(Cross(E.a, E.b), E.rets)
    [] E.op = "Normal" -> LET c == Cross(VSub(E.p2, E.p1), VSub(E.p3, E.p1)) IN Mag2(c) = E.L * E.L /\ Near(E.ret, c, E.L)
    [] E.op = "Std" -> E.same
    [] E.op = "Colour" -> /\ E.ret = VScale(E.un, E.ch)
    [] E.op = "Hue" -> E.ret = Hue(E.s, E.q)
    [] E.op = "Ray" -> /\ All(RayAt(E.o, E.d, E.s), E.at) /\ E.neg = <<E.o, VNeg(E.d)>> /\ E.resized = <<Resize(E.o, E.m), Resize(E.d, E.m)>>
                       /\ E.hash /\ E.def = <<VZero(Len(E.o)), Axis(1, Len(E.o))>>
    [] E.op = "RayDist" -> Near(E.ret, VAdd(VScale(E.L, E.o), VScale(E.s, E.d)), E.L)
    [] E.op = "RayFoot" -> LET m == IF Mag2(E.d) = 0 THEN 1 ELSE Mag2(E.d)
                               off == IF Mag2(E.d) = 0 THEN Mag2(VSub(E.p, E.o)) ELSE OffLine2(E.o, E.d, E.p)
                           IN  /\ Near(E.foot, Foot(E.o, E.d, E.p), m)
                               /\ NearRoot(E.sdf, off, m)
                               /\ Abs(E.dist2 * m - E.un * off) <= E.tol2 * m
    [] OTHER -> FALSE

F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
===================================================================================
