------------------------------- MODULE ScalarTrace -------------------------------
(* Recorded calls of the scalar functions.  Reals that can be exact are recorded     *)
(* exactly (scaled to whole numbers); the others in units of 1/e.un, within e.tol.    *)
EXTENDS Scalar, TraceKit
VARIABLE l
Elems(s) == {s[i] : i \in 1..Len(s)}
MyOk(E) == LET
  Near(out, num, d) == Abs1((out * d) - (E.un * num)) <= E.tol * d
  \* (M + x)(M + y) - (M + z)(M + w) when x + y = z + w
  Cross4(v) == (v[1] * v[2]) - (v[3] * v[4])
  Lcf(k) == Pw(E.h, k)
  IN
  CASE E.op = "Div" -> E.floor = FloorDiv(E.a, E.b) /\ E.ceil = CeilDiv(E.a, E.b) /\ E.mod = PosMod(E.a, E.b) /\ (E.b > 0 => E.snap = E.b * CeilDiv(E.a, E.b))
    \* reals: a and b in quarters
    [] E.op = "DivR" -> E.floor = FloorDiv(E.a, E.b) /\ E.ceil = CeilDiv(E.a, E.b) /\ E.mod = PosMod(E.a, E.b) /\ (E.b > 0 => E.snap = E.b * CeilDiv(E.a, E.b))
    [] E.op = "Pow2" -> E.ret = IsPow2(E.a) /\ E.big = IsPow2(E.a)
    [] E.op = "Clamp" -> E.ret = IF E.v < E.lo THEN E.lo ELSE IF E.v > E.hi THEN E.hi ELSE E.v
    [] E.op = "Cancel" -> E.diff = Cross4(E.v) /\ E.sum = Cross4(E.v) /\ E.fma = E.v[5]
    [] E.op = "Products" -> /\ E.diff = (E.v[1] * E.v[2]) - (E.v[3] * E.v[4]) /\ E.sum = (E.v[1] * E.v[2]) + (E.v[3] * E.v[4])
                            /\ E.fma = (E.v[1] * E.v[2]) + E.v[3]
    [] E.op = "Complex" -> LET M(x, y) == <<(x[1] * y[1]) - (x[2] * y[2]), (x[1] * y[2]) + (x[2] * y[1])>>
                               ab == M(E.v[1], E.v[2]) cd == M(E.v[3], E.v[4])
                           IN  /\ E.diff = <<ab[1] - cd[1], ab[2] - cd[2]>> /\ E.sum = <<ab[1] + cd[1], ab[2] + cd[2]>>
                               /\ E.fma = <<ab[1] + E.v[3][1], ab[2] + E.v[3][2]>>
    [] E.op = "Linear" -> E.ret = Lerp(E.js, E.q, E.p) /\ E.mix = ((E.q - E.js[1]) * E.p[1]) + (E.js[1] * E.p[2])
    [] E.op = "Cubic" -> E.ret = Cubic(E.js, E.q, E.p)
    \* whole or half-whole roots come out exactly; others are close
    [] E.op = "Quad" -> LET disc == (E.b * E.b) - (4 * E.a * E.c) IN
         IF disc < 0 \/ (E.a = 0 /\ E.b = 0) THEN ~E.ret /\ E.kept
         ELSE /\ E.ret
              /\ E.a = 0 => Near(E.x[1], -E.c * Sg(E.b), Abs1(E.b)) /\ E.x[2] = E.x[1]
              /\ E.a # 0 => /\ Abs1((E.a * (E.x[1] + E.x[2])) + (E.un * E.b)) <= (E.tol + 1) * Abs1(E.a)
                            \* the gap: |a (x1 - x2)|^2 = disc
                            /\ LET g == Abs1(E.a * (E.x[1] - E.x[2])) s == (E.tol + 1) * Abs1(E.a) IN
                               /\ (g - s < 0 \/ (g - s) * (g - s) <= E.un * E.un * disc) /\ (g + s) * (g + s) >= E.un * E.un * disc
    [] E.op = "QuadRoots" -> E.ret /\ Elems(E.x) = {E.p, E.r}
    [] E.op = "AngleTo" -> E.ret \in Way(E.a, E.b)
    [] E.op = "Degrees" -> E.rad = 1608 * E.k \/ Abs1((E.rad * 128) - (205887 * E.k)) <= 128 * (2 + Abs1(E.k) \div 64)
    [] E.op = "DegreesBack" -> E.deg = E.k
    [] E.op = "Legendre" -> Near(E.ret, PAt(Legendre(E.n), E.c, E.h, E.n), LegDen(E.n) * Lcf(E.n)) /\ E.ret2 = E.ret
    [] E.op = "LegendreInt" -> \* from -1 to x: the antiderivative's coefficients over n+1 times the lot
         LET p == Legendre(E.n) L == Fact(E.n + 1)
             q == [k \in 1..(Len(p) + 1) |-> IF k = 1 THEN 0 ELSE p[k - 1] * (L \div (k - 1))]
         IN  Near(E.ret, PAt(q, E.c, E.h, E.n + 1) - PAt(q, -E.h, E.h, E.n + 1), L * LegDen(E.n) * Lcf(E.n + 1))
    \* (-1)^m (1 - x^2)^(m/2) d^m P_l / dx^m at x = c/h, where s/h = sqrt(1 - x^2)
    [] E.op = "LegendreM" -> LET p == PDiffN(Legendre(E.n), E.m) IN
         Near(E.ret, (IF E.m % 2 = 0 THEN 1 ELSE -1) * Pw(E.s, E.m) * PAt(p, E.c, E.h, E.n - E.m), LegDen(E.n) * Lcf(E.n))
    [] E.op = "Chebyshev" -> Near(E.ret, PAt(Cheb(E.kind, E.n), E.c, E.h, E.n), Lcf(E.n))
    [] OTHER -> FALSE

F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
==================================================================================
