-------------------------------- MODULE RectTrace --------------------------------
(* Recorded operations on boxes.  Coordinates are scaled by e.sc, so that they are  *)
(* whole; values at the limits of the type appear as +-1000.                        *)
EXTENDS Rect, TraceKit
VARIABLE l

N(e) == e.n
AllAx(e, F(_)) == \A i \in 1..e.n : F(i)
Lens(e, r) == Lengths(r, e.m)
AbsV(v) == [i \in DOMAIN v |-> Abs(v[i])]
\* sums of scaled coordinates with the FAR marker are never compared
CenterOK(e, r, c) == AllAx(e, LAMBDA i : IF e.m = 1 THEN LET two == r[1][i] + r[2][i] + 1 IN 2 * c[i] \in {two, two - 1}
                                         ELSE 2 * c[i] = r[1][i] + r[2][i])

MyOk(e) ==
  CASE e.op = "Union"   -> e.r = Union(e.a, e.b) /\ e.r2 = e.r /\ e.self
    [] e.op = "UnionPt" -> e.r = UnionPt(e.a, e.p) /\ e.r2 = e.r /\ e.self /\ In(e.p, e.r)
    [] e.op = "Inter"   -> Same(e.r, Inter(e.a, e.b)) /\ Same(e.r2, e.r) /\ e.self
    [] e.op = "Shift"   -> /\ e.r = Shift(e.a, e.p) /\ e.r2 = e.r /\ e.r3 = e.r
                           /\ e.m1 = Shift(e.a, VScale(-1, e.p)) /\ e.m2 = e.m1
                           /\ e.from = <<[i \in 1..e.n |-> e.p[i] - e.a[2][i]], [i \in 1..e.n |-> e.p[i] - e.a[1][i]]>>
    [] e.op = "Exclude" -> /\ e.a1 = e.a                                  \* the operand is left alone
                           /\ e.r2 = e.r
                           /\ Contains(e.a, e.r)
                           /\ \/ Empty(e.b)
                              \/ IF e.m = 1 THEN ~Meets(e.r, e.b) ELSE Empty(e.r) \/ Apart(e.r, e.b)
                           /\ Empty(e.a) \/ Same(e.r, Exclude(e.a, e.b, e.m))
    [] e.op = "Contains" -> e.ret = In(e.p, e.a) /\ e.ret2 = e.ret
    [] e.op = "ContainsBox" -> e.ret = Contains(e.a, e.b) /\ e.rev = Contains(e.b, e.a)
    [] e.op = "Meets"   -> e.ret = Meets(e.a, e.b) /\ e.rev = e.ret
    [] e.op = "Measure" -> /\ e.dim = Lens(e, e.a) /\ e.vol = Volume(e.a, e.m) /\ e.empty = Empty(e.a) /\ e.cube = e.vol  \* cube: the length to the n-th power
                           /\ Empty(e.a) \/ (CenterOK(e, e.a, e.ctr) /\ In(e.ctr, e.a))
    [] e.op = "FromCorner" -> /\ Lens(e, e.r) = AbsV(e.d)
                              /\ AllAx(e, LAMBDA i : e.p[i] = e.r[IF e.d[i] > 0 THEN 1 ELSE 2][i])
    [] e.op = "FromCenter" -> /\ Lens(e, e.r) = AbsV(e.d) /\ Lens(e, e.r2) = AbsV(e.d)
                              /\ CenterOK(e, e.r, e.p) /\ e.ctr = e.p
                              /\ CenterOK(e, e.r2, VZero(e.n))
    [] e.op = "Span"    -> e.r = Span(e.p, e.q) /\ e.r2 = e.r /\ In(e.p, e.r) /\ In(e.q, e.r)
    [] e.op = "Points"  -> /\ \A k \in 1..Len(e.ps) : In(e.ps[k], e.r)
                           /\ IF e.ps = <<>> THEN Empty(e.r)
                              ELSE AllAx(e, LAMBDA i : \E j, k \in 1..Len(e.ps) : e.ps[j][i] = e.r[1][i] /\ e.ps[k][i] = e.r[2][i])
    [] e.op = "Axes"    -> /\ AllAx(e, LAMBDA i : e.ax[i] = AxisOf(e.a, i))
                           /\ e.last = AxisOf(e.a, e.n)
                           /\ e.two = <<<<e.a[1][e.i], e.a[1][e.j]>>, <<e.a[2][e.i], e.a[2][e.j]>>>>
    [] e.op = "Product" -> /\ e.r = <<e.a[1] \o e.b[1], e.a[2] \o e.b[2]>>
                           /\ e.r1 = <<e.a[1] \o e.z[1], e.a[2] \o e.z[2]>>
    [] e.op = "Scale"   -> /\ e.r = Span([i \in 1..e.n |-> e.a[1][i] * e.f[i]], [i \in 1..e.n |-> e.a[2][i] * e.f[i]])
                           /\ e.r2 = e.r /\ e.back = e.a
    [] e.op = "Grow"    -> e.r = Grow(e.a, e.p)
    [] e.op = "Sum"     -> e.r = Sum(e.a, e.b)
    [] e.op = "Clip"    -> e.r = Clip(e.a, e.p) /\ e.d2 = D2(e.p, e.r)
    [] e.op = "Project" -> /\ OnBoundary(e.a, e.r)
                           /\ D2(e.p, e.r) = BoundaryD2(e.a, e.p)
                           /\ e.m = 0 => LET s == Abs(e.sdf) d2 == BoundaryD2(e.a, e.p) IN
                                /\ s = 0 \/ ((e.sdf < 0) = In(e.p, e.a))
                                /\ (s + 1) * (s + 1) >= 10000 * d2 /\ (s = 0 \/ (s - 1) * (s - 1) <= 10000 * d2)
    [] e.op = "Contact" -> LET b == Shift(e.a, e.v) gaps == [i \in 1..e.n |-> Gap(e.a, e.b, i)] IN
                           /\ Meets(b, e.b) /\ Apart(b, e.b)             \* just touching
                           /\ IF Apart(e.a, e.b)
                              THEN AllAx(e, LAMBDA i : e.v[i] = IF e.a[2][i] < e.b[1][i] \/ e.b[2][i] < e.a[1][i] THEN gaps[i] ELSE 0)
                              ELSE /\ Cardinality({i \in 1..e.n : e.v[i] # 0}) = 1
                                   /\ \A i, j \in 1..e.n : e.v[i] # 0 => Abs(e.v[i]) <= Abs(gaps[j])
                           /\ e.over = Meets(e.a, e.b)
    [] e.op = "Abs"     -> e.r = Span(e.a[1], e.a[2])
    [] e.op = "Remap"   -> /\ AllAx(e, LAMBDA i : e.x[i] = 4 * e.a[1][i] + e.s[i] * (e.a[2][i] - e.a[1][i]))
                           /\ e.back = e.s
    [] e.op = "Support" -> /\ OnBoundary(e.a, e.r) /\ e.bb = e.a
                           /\ Dot(e.r, e.d) = SumTo([i \in 1..e.n |-> MaxOf(e.a[1][i] * e.d[i], e.a[2][i] * e.d[i])], e.n)
    [] e.op = "Eq"      -> e.eq = (e.a = e.b) /\ e.ne = ~e.eq /\ e.cast = e.b
    [] e.op = "Resize"  -> /\ AllAx(e, LAMBDA i : /\ e.r[1][i] + e.r[2][i] = 2 * (e.a[1][i] + e.a[2][i])
                                                  /\ e.r[2][i] - e.r[1][i] = 4 * Abs(e.d[i])
                                                  /\ e.w[1][i] + e.w[2][i] = 4 * e.p[i]
                                                  /\ e.w[2][i] - e.w[1][i] = 2 * (e.a[2][i] - e.a[1][i]))
    [] e.op = "Fit"     -> \* coordinates of r are 16 times finer
                           LET ra == Lengths(e.a, 0) rb == Lengths(e.b, 0) rr == Lengths(e.r, 0) IN
                           /\ \A i, j \in 1..e.n : rr[i] * ra[j] = rr[j] * ra[i]
                           /\ AllAx(e, LAMBDA i : e.r[1][i] + e.r[2][i] = 16 * (e.b[1][i] + e.b[2][i]))
                           /\ AllAx(e, LAMBDA i : ra[i] # 0 => rr[i] >= 16 * rb[i])
                           /\ (\E i \in 1..e.n : ra[i] # 0) => \E i \in 1..e.n : ra[i] # 0 /\ rr[i] = 16 * rb[i]
    [] OTHER -> FALSE

F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
==================================================================================
