-------------------------------- MODULE FacetTrace --------------------------------
(* Recorded questions to planes and simplexes. Lengths and positions are in 1/U.     *)
EXTENDS Facet, TraceKit
VARIABLE l

Within(x, y, tol) == Abs(x - y) <= tol
NearFrac(out, num, d, tol) == Abs(out * d - U * num) <= tol * d
NearUnit(out, v, tol) == LET m == Mag2(v) IN Len(out) = Len(v) /\ \A i \in DOMAIN v : Within(out[i], Sgn(v[i]) * Root(v[i] * v[i], m), tol)
\* a vector scaled to small entries, its direction kept
Coarse(v) == LET k == (MaxSeq([i \in DOMAIN v |-> Abs(v[i])]) \div 1000) + 1
             IN  TLCEval([i \in DOMAIN v |-> Sgn(v[i]) * (Abs(v[i]) \div k)])
\* binary arithmetic with a unit normal along n is exact
Axial(n) == Cardinality({i \in DOMAIN n : n[i] # 0}) = 1

(* ------------------------------------------------------------------ planes *)
RECURSIVE After(_, _, _)
After(pl, steps, i) == IF i > Len(steps) THEN pl
                       ELSE LET s == steps[i] IN
                            After(IF s.inv THEN Lowest(Unmoved(pl, s.m, s.t)) ELSE Lowest(Moved(pl, s.m, s.t)), steps, i + 1)
PlaneOk(e) ==
    LET pl == After([n |-> e.n, k |-> Dot(e.n, e.o)], e.steps, 1)
        n2 == Mag2(pl.n)
        Far(P, q) == LET o == Off(pl, P, q) IN Sgn(o) * Root(o * o, q * q * n2)
    IN  /\ NearUnit(e.nrm, pl.n, 1)
        /\ Within(e.d, Sgn(-pl.k) * Root(pl.k * pl.k, n2), 1)
        /\ \A i \in DOMAIN pl.n : NearFrac(e.org[i], pl.k * pl.n[i], n2, 2)
        /\ \A i \in DOMAIN e.at : LET a == e.at[i] o == Off(pl, a.p, a.q) IN
              /\ Within(a.dist, Far(a.p, a.q), 2) /\ Within(a.sdf, a.dist, 1)
              /\ IF o = 0 THEN (Axial(e.n) /\ e.steps = <<>> /\ Pow2(a.q)) => a.con ELSE a.con = (o < 0)
              /\ \A c \in DOMAIN pl.n : NearFrac(a.pr[c], a.p[c] * n2 - o * pl.n[c], a.q * n2, 3)
              /\ Within(a.dil, Far(a.p, a.q) - U * e.dil, 2)         \* dilated, the surface is that much nearer
PlaneShapeOk(e) ==
    LET top == Sup(e.s, e.n) - U * e.k
        bottom == -Sup(e.s, VScale(-1, e.n)) - U * e.k
    IN  /\ IF Abs(top) <= 8 THEN (Axial(e.n) /\ e.s.k \in {"box", "spx"} => e.con) ELSE e.con = (top < 0)
        /\ IF Abs(top) <= 8 \/ Abs(bottom) <= 8 THEN (e.s.k \in {"sph", "box"} /\ Axial(e.n) /\ top >= -8 /\ bottom <= 8 => (e.s.k = "box" /\ Abs(top) <= 8) \/ e.hit)
           ELSE e.hit = (top > 0 /\ bottom < 0)
HullOk(e) ==
    LET o == [i \in DOMAIN e.pts |-> Sgn(Dot(e.n, e.pts[i]) - e.k)]
        S == {o[i] : i \in DOMAIN e.pts}
    IN  IF {1, -1} \subseteq S THEN e.hit
        ELSE IF 0 \in S THEN (Axial(e.n) => e.hit)
        ELSE ~e.hit
\* the normal of the hyperplane along the edges, up to its sign
Normal(b) == LET n == Len(b) + 1 IN
             [i \in 1..n |-> (IF i % 2 = 1 THEN 1 ELSE -1) * Det([r \in 1..(n - 1) |-> [c \in 1..(n - 1) |-> b[r][IF c < i THEN c ELSE c + 1]]])]
SpanOk(e) ==
    LET n == TLCEval(Normal(e.b))
        k == Dot(n, e.o)
        n2 == Mag2(n)
        d == Sgn(-k) * Root(k * k, n2)
    IN  \E s \in {1, -1} : NearUnit(e.nrm, VScale(s, n), 1) /\ Within(e.d, s * d, 2)
PlaneEqOk(e) == e.eq = (e.n = e.m /\ e.k = e.j)

(* ------------------------------------------------------------------ simplexes *)
Gr(p) == Spread(p)
Fact(n) == ProdTo([i \in 1..n |-> i], n)
SizeOk(e) ==
    LET n == Len(e.p[1])
        k == Len(e.p) - 1
    IN  /\ Within(e.vol, IF k = n THEN (LET v == Det(Edges(e.p)) IN Sgn(v) * ((U * Abs(v)) \div Fact(n))) ELSE 0, 1)
        /\ Within(e.meas, Root(Gr(e.p), Fact(k) * Fact(k)), 2)
ContainsOk(e) == LET s == [k |-> "spx", p |-> e.p] side == Side(s, e.x, e.q) IN
    IF side = 0 THEN (Sharp(s, e.x, e.q) => e.con) ELSE e.con = (side > 0)
FacingOk(e) ==
    IF Len(e.p) = 0 THEN ~e.ret
    ELSE IF Len(e.p) = 1 THEN e.ret
    ELSE LET w == Weights(e.p, e.x, e.q)
             k == Len(e.p)
             lo == MinSeq(w[1])
         IN  /\ IF lo = 0 THEN (k = 2 /\ Pow2(e.q) /\ Pow2(Mag2(VSub(e.p[2], e.p[1]))) => e.ret) ELSE e.ret = (lo > 0)
             /\ e.ret => \A i \in 2..k : NearFrac(e.par[i - 1], w[1][i], w[2], 2)
\* faces of p onto which P/q has its foot, by squared distance <<num, den>>
Feet(p, P, q) == {r \in {LET f == Sub(p, S) IN <<S, Weights(f, P, q), Gap(f, P, q), Spread(f)>> : S \in (SUBSET (1..Len(p))) \ {{}}} :
                    \A i \in DOMAIN r[2][1] : r[2][1][i] >= 0}
ProjectOk(e) ==
    LET p == e.p
        n == Len(p[1])
        k == Len(p)
        S == {i \in 1..k : \E j \in DOMAIN e.face : e.face[j] = p[i]}
        f == Sub(p, S)
        w == TLCEval(Weights(f, e.x, e.q))
        gap == Gap(f, e.x, e.q)
        spr == Spread(f)
        side == IF k = n + 1 THEN Side([k |-> "spx", p |-> p], e.x, e.q) ELSE -1
        foot == FootOf(f, w[1])
        off == Coarse(TLCEval([i \in 1..n |-> e.x[i] * (w[2] \div e.q) - foot[i]]))
    IN  /\ Cardinality(S) = Len(e.face) /\ S # {}
        /\ \A i \in DOMAIN w[1] : w[1][i] >= 0
        /\ \A i \in 1..n : NearFrac(e.pt[i], foot[i], w[2], 3)
        /\ IF side > 0
           THEN IF e.how = "clip" THEN Cardinality(S) = k
                ELSE /\ Cardinality(S) = k - 1
                     /\ \A i \in 1..k : LET g == Sub(p, (1..k) \ {i}) IN ~Less(Gap(g, e.x, e.q), Spread(g), gap, spr)
                     /\ Within(e.sdf, -Root(gap, e.q * e.q * spr), 2)
           ELSE /\ \A r \in Feet(p, e.x, e.q) : ~Less(r[3], r[4], gap, spr)
                /\ e.how = "project" =>
                      /\ Within(e.sdf, Root(gap, e.q * e.q * spr), 2)
                      /\ gap # 0 => NearUnit(e.nrm, off, 3)
EditOk(e) ==
    LET k == Len(e.p) IN
    CASE e.how \in {"insert", "or", "|="} -> e.out = IF k < e.n + 1 THEN Append(e.p, e.x) ELSE e.p
      [] e.how = "exclude" -> e.out = [i \in 1..(k - 1) |-> IF i <= e.i THEN e.p[i] ELSE e.p[i + 1]]
      [] e.how = "map" -> e.out = [i \in 1..k |-> VAdd(MVec(e.m, e.p[i]), e.t)]
      [] e.how = "unmap" -> \A i \in 1..k : e.p[i] = VAdd(MVec(e.m, e.out[i]), e.t)
      [] e.how = "make" -> e.out = SubSeq(e.p, 1, IF k < e.n + 1 THEN k ELSE e.n + 1)
      [] e.how = "set" -> /\ e.out = [e.p EXCEPT ![e.i + 1] = e.x]
                          \* the standard simplex: the origin and the axes
                          /\ e.std = [i \in 1..(e.n + 1) |-> [j \in 1..e.n |-> IF j = i - 1 THEN 1 ELSE 0]]
      [] e.how = "equal" -> e.eq = (e.p = e.out) /\ e.ne = ~e.eq

MyOk(e) == CASE e.op = "Plane" -> PlaneOk(e)
             [] e.op = "PlaneShape" -> PlaneShapeOk(e)
             [] e.op = "Hull" -> HullOk(e)
             [] e.op = "Span" -> SpanOk(e)
             [] e.op = "PlaneEq" -> PlaneEqOk(e)
             [] e.op = "Size" -> SizeOk(e)
             [] e.op = "Contains" -> ContainsOk(e)
             [] e.op = "Facing" -> FacingOk(e)
             [] e.op = "Project" -> ProjectOk(e)
             [] e.op = "Edit" -> EditOk(e)
F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
==================================================================================
