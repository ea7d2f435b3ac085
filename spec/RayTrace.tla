--------------------------------- MODULE RayTrace ---------------------------------
(* Recorded rays, o/2 + s v, and the intervals of s for which they were said to be   *)
(* inside a shape.                                                                   *)
EXTENDS Shape, TraceKit, TLC
VARIABLE l

(* the ray as its shape's innermost orientation sees it: (o + s v) / d in the shape w *)
RECURSIVE Pull(_, _, _, _)
Pull(w, o, v, d) ==
    IF w.k # "ori" THEN [w |-> w, o |-> o, v |-> v, d |-> d]
    ELSE LET m == Adj(w.m) g == Det(w.m) x == VSub(o, VScale(d, w.t))
             Map(u) == TLCEval(VScale(Sgn(g), MVec(m, u)))
         IN  Pull(w.s, Map(x), Map(v), d * Abs(g))
(* the side of the ray's point at s = k/q *)
On(r, k, q) == Side(r.w, VAdd(VScale(q, r.o), VScale(k, r.v)), q * r.d)

RECURSIVE Weight(_)      \* fine steps are worth it (and within reach) for shapes not wrapped too deeply
Weight(s) == CASE s.k \in {"ori", "fru", "ext"} -> 1 + Weight(s.s) [] s.k = "spx" /\ SpaceDim(s) = 3 -> 1 [] OTHER -> 0
Fine(e) == IF Weight(e.s) >= 2 THEN 16 ELSE 64
Tau == 3     \* in 1/256

(* a box contains its faces, so a ray along one is inside *)
Closed(s) == s.k = "box" \/ (s.k = "ext" /\ s.s.k = "box")
Ok1(e, r, k, q) == LET x == On(r, k, q) s == (256 \div q) * k IN
    IF e.e THEN x <= 0
    ELSE IF s > e.h[1] + Tau /\ s < e.h[2] - Tau THEN x >= 0
    ELSE IF s < e.h[1] - Tau \/ s > e.h[2] + Tau THEN (IF Closed(e.s) THEN x < 0 ELSE x <= 0)
    ELSE TRUE
Near(h, q) == IF Abs(h) > 4000 THEN {} ELSE LET k == h \div (256 \div q) IN (k - 1)..(k + 2)

(* a ray in the plane of a frustum's tip meets at most the tip *)
TipOk(e) == LET t == Dot(e.o, e.v) m == Mag2(e.v) aimed == Mag2(e.o) * m = t * t IN
    IF ~aimed THEN e.e
    ELSE Pow2(m) => ~e.e /\ \A i \in 1..2 : Abs(2 * m * e.h[i] + U * t) <= 2 * m

RayOk(e) == LET r == TLCEval(Pull(e.s, e.o, VScale(2, e.v), 2)) IN
    /\ e.same
    /\ IF e.e THEN \A k \in -26..26 : Ok1(e, r, k, 4) ELSE \A k \in -10..10 : Ok1(e, r, k, 2)
    /\ (e.e /\ Closed(e.s)) => ~\E k \in -26..26 : On(r, k, 4) = 0 /\ On(r, k + 1, 4) = 0
    /\ e.e \/ (e.h[1] <= e.h[2] /\ \A k \in Near(e.h[1], Fine(e)) \cup Near(e.h[2], Fine(e)) : Ok1(e, r, k, Fine(e)))
    /\ (e.s.k = "fru" /\ FLo(e.s) = 0 /\ Top(e.o) = 0 /\ Top(e.v) = 0) => TipOk(e)
    \* (a shape barely touched may also be missed)
    /\ (~e.e /\ ~e.e3) => Abs(e.h3[1] - 2 * e.h[1]) <= Tau /\ Abs(e.h3[2] - 2 * e.h[2]) <= Tau
    /\ (e.e # e.e3) => (~e.e => e.h[2] - e.h[1] <= Tau) /\ (~e.e3 => e.h3[2] - e.h3[1] <= Tau)

(* a flat simplex: p1 + sum of u_i (p_i+1 - p1) = o + t v, by Cramer's rule *)
FacetOk(e) ==
    LET n == SpaceDim(e.s) E == Edges(e.s.p) y == VSub(e.o, e.s.p[1])
        rows(i, x) == [j \in 1..n |-> IF j = i THEN x ELSE IF j = n THEN VScale(-1, e.v) ELSE E[j]]
        d == Det(rows(0, y)) D == Abs(d)
        w(i) == Sgn(d) * Det(rows(i, y))             \* times D
        rest == D - SumTo([i \in 1..(n - 1) |-> w(i)], n - 1)
        in == MinOf(rest, MinSeq([i \in 1..(n - 1) |-> w(i)]))
        Close(x, a) == Abs(x * D - U * a) <= 2 * D
    IN  /\ e.agree
        /\ (d = 0 => ~e.hit)
        /\ (d # 0 /\ in # 0) => e.hit = (in > 0)
        /\ (d # 0 /\ e.hit) => Close(e.t, w(n)) /\ \A i \in 1..(n - 1) : Close(e.uv[i], w(i))

MyOk(e) == CASE e.op = "Ray" -> RayOk(e)
             [] e.op = "Facet" -> FacetOk(e)
             [] e.op = "NoFacet" -> ~e.hit
             [] OTHER -> FALSE

F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
=================================================================================
