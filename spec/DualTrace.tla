-------------------------------- MODULE DualTrace --------------------------------
(* Recorded operations on dual numbers.  Those over a prime field, or over whole      *)
(* numbers and halves held in floats, are exact; the others are in units of 1/1024,   *)
(* rounded, off by at most e.tol.                                                     *)
EXTENDS Dual, TraceKit
VARIABLE l
U == 1024
Abs1(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pw(_, _)
Pw(b, n) == IF n = 0 THEN 1 ELSE b * Pw(b, n - 1)
MyOk(E) == LET
  Near(out, num, d) == Abs1((out * d) - (U * num)) <= E.tol * Abs1(d)
  Fix(a) == IF E.p = 0 THEN a ELSE DMod(a, E.p)
  \* a result that times b is a
  Quot(r, a, b) == Fix(DMul(r, b)) = Fix(<<a[1] * E.un, a[2] * E.un>>)
  Alg == LET a == E.a b == E.b IN
    CASE E.f = "add" -> E.ret = Fix(DAdd(a, b))
      [] E.f = "sub" -> E.ret = Fix(DSub(a, b))
      [] E.f = "mul" -> E.ret = Fix(DMul(a, b))
      [] E.f = "div" -> Quot(E.ret, a, b)
      [] E.f = "neg" -> E.ret = Fix(DNeg(a))
      [] E.f = "inc" -> E.ret = Fix(<<a[1] + 1, a[2]>>)
      [] E.f = "dec" -> E.ret = Fix(<<a[1] - 1, a[2]>>)
      [] E.f = "same" -> E.ret = a
      [] E.f = "fma" -> E.ret = Fix(DAdd(DMul(a, b), E.c))
      [] E.f = "dop" -> E.ret = Fix(DSub(DMul(a, b), DMul(E.c, E.d)))
      [] E.f = "sop" -> E.ret = Fix(DAdd(DMul(a, b), DMul(E.c, E.d)))
      \* (1 - a) b + a c
      [] E.f = "mix" -> E.ret = Fix(DAdd(DMul(DSub(<<1, 0>>, a), b), DMul(a, E.c)))
      [] OTHER -> FALSE
  Nest == LET a == E.a b == E.b IN
    CASE E.f = "add" -> E.ret = EMod([i \in 1..4 |-> a[i] + b[i]], E.p)
      [] E.f = "sub" -> E.ret = EMod([i \in 1..4 |-> a[i] - b[i]], E.p)
      [] E.f = "mul" -> E.ret = EMod(EMul(a, b), E.p)
      [] E.f = "div" -> EMod(EMul(E.ret, b), E.p) = a
      [] E.f = "neg" -> E.ret = EMod([i \in 1..4 |-> -a[i]], E.p)
      [] OTHER -> FALSE
  \* a function with value v, slope s and bend w (each <<num, den>>) of <<x, m1, m2, m12>>
  Pos(x) == IF x[2] < 0 THEN <<-x[1], -x[2]>> ELSE x
  Jet(s0, w0) == LET m == E.m s == Pos(s0) w == Pos(w0) IN
     /\ Near(E.ret[2], s[1] * m[1], s[2])
     /\ E.two => /\ Near(E.ret[3], s[1] * m[2], s[2])
                 /\ LET d == IF w[2] % s[2] = 0 THEN w[2] ELSE IF s[2] % w[2] = 0 THEN s[2] ELSE s[2] * w[2]
                    IN  Near(E.ret[4], ((w[1] * m[1] * m[2]) * (d \div w[2])) + ((s[1] * m[3]) * (d \div s[2])), d)
  Val(v) == Near(E.ret[1], Pos(v)[1], Pos(v)[2])
  \* the first result is an angle: its cosine and sine
  Ang(c, s, h) == Near(E.vc, c, h) /\ Near(E.vs, s, h)
  Fn == LET c == E.c s == E.s h == E.h q == E.q r == E.r n == E.n IN
    CASE E.f = "sin" -> Val(<<s, h>>) /\ Jet(<<c, h>>, <<-s, h>>)
      [] E.f = "cos" -> Val(<<c, h>>) /\ Jet(<<-s, h>>, <<-c, h>>)
      [] E.f = "tan" -> Val(<<s, c>>) /\ Jet(<<h * h, c * c>>, <<2 * s * h * h, c * c * c>>)
      [] E.f = "asin" -> Ang(c, s, h) /\ Jet(<<h, c>>, <<s * h * h, c * c * c>>)
      [] E.f = "acos" -> Ang(c, s, h) /\ Jet(<<-h, s>>, <<-c * h * h, s * s * s>>)
      [] E.f = "atan" -> Ang(c, s, h) /\ Jet(<<c * c, h * h>>, <<-2 * s * c * c * c, Pw(h, 4)>>)
      [] E.f = "exp" -> Val(<<q, r>>) /\ Jet(<<q, r>>, <<q, r>>)
      [] E.f = "log" -> Near(E.vc, q, r) /\ Jet(<<r, q>>, <<-(r * r), q * q>>)
      [] E.f = "sqrt" -> Val(<<q, r>>) /\ Jet(<<r, 2 * q>>, <<-(r * r * r), 4 * q * q * q>>)
      \* (q/r)^n
      [] E.f = "pow" -> /\ IF n >= 0 THEN Val(<<Pw(q, n), Pw(r, n)>>) ELSE Val(<<Pw(r, -n), Pw(q, -n)>>)
                        /\ Jet(IF n = 0 THEN <<0, 1>> ELSE IF n > 0 THEN <<n * Pw(q, n - 1), Pw(r, n - 1)>> ELSE <<n * Pw(r, 1 - n), Pw(q, 1 - n)>>,
                               IF n \in {0, 1} THEN <<0, 1>> ELSE IF n > 0 THEN <<n * (n - 1) * Pw(q, n - 2), Pw(r, n - 2)>>
                               ELSE <<n * (n - 1) * Pw(r, 2 - n), Pw(q, 2 - n)>>)
      \* 2^(jn), as a power of 2^j (infinitesimals of the exponent in units of 1/log 2)
      [] E.f = "powS" -> Val(<<q, r>>) /\ Jet(<<q * E.j, r>>, <<q * E.j * E.j, r>>)
      [] E.f = "powD" -> Val(<<q, r>>) /\ Near(E.ret[2], q * ((E.m[1] * n) + (E.m[2] * E.j * E.b)), r * E.b)
      [] OTHER -> FALSE
  In(x, vals) == \E y \in vals : x = y
  Edge == LET x == E.a[1] d == E.a[2] IN
    CASE E.f = "abs" -> E.ret = Abs1(x) /\ In(E.dret, IF x > 0 THEN {Num(2 * d)} ELSE IF x < 0 THEN {Num(-2 * d)} ELSE AbsAt(E.policy, d))
      [] E.f = "floor" -> E.ret = 2 * (x \div 2) /\ In(E.dret, IF x % 2 = 0 THEN StepAt(E.policy, d) ELSE {Num(0)})
      [] E.f = "ceil" -> E.ret = -2 * ((-x) \div 2) /\ In(E.dret, IF x % 2 = 0 THEN StepAt(E.policy, d) ELSE {Num(0)})
      [] E.f = "min" -> E.ret = Min2(x, E.b[1]) /\ In(E.dret, IF x = E.b[1] THEN MinAt(E.policy, d, E.b[2]) ELSE {Num(2 * (IF x < E.b[1] THEN d ELSE E.b[2]))})
      [] E.f = "max" -> E.ret = Max2(x, E.b[1]) /\ In(E.dret, IF x = E.b[1] THEN MaxAt(E.policy, d, E.b[2]) ELSE {Num(2 * (IF x > E.b[1] THEN d ELSE E.b[2]))})
      \* clamped between b and c: only away from ties, which is left to min and max
      [] E.f = "clamp" -> IF x = E.b[1] \/ x = E.c[1] \/ E.b[1] = E.c[1] THEN TRUE
                          ELSE LET w == IF x < E.b[1] THEN E.b ELSE IF x > E.c[1] THEN E.c ELSE E.a IN E.ret = w[1] /\ E.dret = Num(2 * w[2])
      [] OTHER -> FALSE
  Dot(a, b) == (a[1] * b[1]) + (a[2] * b[2]) + (a[3] * b[3])
  Cross(a, b) == <<(a[2] * b[3]) - (a[3] * b[2]), (a[3] * b[1]) - (a[1] * b[3]), (a[1] * b[2]) - (a[2] * b[1])>>
  Both(a, da, b, db) == [i \in 1..3 |-> Cross(da, b)[i] + Cross(a, db)[i]]
  MMulAt(x, y, i, j) == (x[i][1] * y[1][j]) + (x[i][2] * y[2][j]) + (x[i][3] * y[3][j])
  Ident(i, j) == IF i = j THEN 1 ELSE 0
  IN
  CASE E.op = "Alg" -> Alg
    [] E.op = "Nest" -> Nest
    [] E.op = "Fn" -> Fn
    [] E.op = "Atan2" -> /\ Ang(E.x, E.y, E.h) /\ Abs1(E.ang) <= 3218
                         /\ Near(E.d, (E.x * E.m[1]) - (E.y * E.m[2]), E.h * E.h)
    [] E.op = "Edge" -> Edge
    [] E.op = "Compare" -> LET a == E.a[1] b == E.b[1] IN
         /\ E.eq = (a = b) /\ E.ne = (a # b) /\ E.lt = (a < b) /\ E.le = (a <= b) /\ E.gt = (a > b) /\ E.ge = (a >= b)
         /\ (a = b) => E.hash
         /\ E.eqs = (a = b) /\ E.lts = (a < b)
    [] E.op = "Class" -> E.isnan = (E.kx = 1 \/ E.kd = 1) /\ E.inf = (E.kx = 2 \/ E.kd = 2) /\ E.fin = (E.kx = 0 /\ E.kd = 0) 
    [] E.op = "Limits" -> E.ok
    [] E.op = "Vec" -> /\ E.dot = <<Dot(E.a, E.b), Dot(E.da, E.b) + Dot(E.a, E.db)>>
                       /\ E.cross = Cross(E.a, E.b) /\ E.dcross = Both(E.a, E.da, E.b, E.db)
                       /\ E.mag2 = <<Dot(E.a, E.a), 2 * Dot(E.a, E.da)>>
    [] E.op = "Mag" -> Near(E.ret[1], E.L, 1) /\ Near(E.ret[2], Dot(E.a, E.da), E.L)
                       /\ \A i \in 1..3 : Near(E.unit[i], E.a[i], E.L)
                                          /\ Near(E.dunit[i], (E.L * E.L * E.da[i]) - (E.a[i] * Dot(E.a, E.da)), E.L * E.L * E.L)
    \* inverses in units of 1/64
    [] E.op = "Matrix" -> IF ~E.ret THEN (E.det[1] = 0) ELSE
         /\ E.det[1] # 0
         /\ \A i, j \in 1..3 : /\ MMulAt(E.x, E.y, i, j) = 64 * Ident(i, j)
                               /\ MMulAt(E.x, E.dy, i, j) + MMulAt(E.dx, E.y, i, j) = 0
         \* Jacobi: d det = det tr(inverse d)
         /\ 64 * E.det[2] = E.det[1] * (MMulAt(E.y, E.dx, 1, 1) + MMulAt(E.y, E.dx, 2, 2) + MMulAt(E.y, E.dx, 3, 3))
    [] OTHER -> FALSE

F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
==================================================================================
