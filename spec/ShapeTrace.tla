-------------------------------- MODULE ShapeTrace --------------------------------
(* Recorded questions to shapes: about a point, about a direction, about the shape. *)
EXTENDS Shape, TraceKit
VARIABLE l

Within(x, y, tol) == Abs(x - y) <= tol
NearBox(e) == LET n == SpaceDim(e.s) IN
    /\ \A i \in 1..n : Within(e.lo[i], BoundLo(e.s)[i], 8) /\ Within(e.hi[i], BoundHi(e.s)[i], 8)

(* a direction away from the surface is only defined off the flat boxes' surface, and outside simplexes *)
RECURSIVE NormalDefined(_, _, _)
NormalDefined(s, P, q) ==
    CASE s.k = "box" -> Side(s, P, q) # 0
      [] s.k = "ext" -> NormalDefined(s.s, Low(P), q)
      [] s.k = "dil" -> NormalDefined(s.s, P, q)
      [] s.k = "spx" -> Side(s, P, q) < 0
      [] OTHER -> TRUE
(* a dilated shape is projected to along the direction from the undilated surface *)
RECURSIVE ProjectDefined(_, _, _)
ProjectDefined(s, P, q) == CASE s.k = "dil" -> Abs(Dist(s.s, P, q)) > 2 /\ ProjectDefined(s.s, P, q)
                             [] s.k = "ext" -> ProjectDefined(s.s, Low(P), q)
                             [] OTHER -> TRUE

AtOk(e) ==
    LET side == Side(e.s, e.p, e.q)
        hd == HasDist(e.s)
        D == IF hd THEN Dist(e.s, e.p, e.q) ELSE 0
    IN  /\ IF side = 0 THEN (Sharp(e.s, e.p, e.q) => e.con) ELSE e.con = (side > 0)
        /\ "sdf" \in DOMAIN e => Within(e.sdf, D, 3)
        /\ ("pr" \in DOMAIN e /\ ProjectDefined(e.s, e.p, e.q)) =>
              /\ Within(e.sp, 0, 1)                           \* on the surface,
              /\ Within(e.dp, Abs(D), 3)                      \* no further than the surface is;
              /\ Within(Dist(e.s, e.pr, 16), 0, 24)
              /\ "cp" \in DOMAIN e => e.cp = (e.con \/ (e.cp /\ Abs(D) <= 1)) /\ (e.cp \/ e.cr)
        /\ ("nn" \in DOMAIN e /\ NormalDefined(e.s, e.p, e.q)) =>
              /\ Within(e.nn, U, 1)                           \* a unit vector, along which
              /\ Within(e.sn, 0, 3)                           \* the distance grows

SupportOk(e) ==
    LET dirs == [1..Len(e.d) -> -1..1] \cup {e.d} IN
    /\ Within(e.v, Sup(e.s, e.d), 8)                          \* as far along d as the shape reaches,
    /\ \A d \in dirs : Dot(e.a, d) <= Sup(e.s, d) + 12        \* and part of the shape
    /\ NearBox(e)

BuildOk(e) ==
    LET Ext(k) == [k |-> k, s |-> e.s, lo |-> MinOf(e.x, e.y), hi |-> MaxOf(e.x, e.y)] IN
    CASE e.how = "extrude" -> e.r = Ext("ext")
      [] e.how = "frustum" -> e.r = Ext("fru")
      [] e.how = "dilate" -> e.r = [k |-> "dil", s |-> e.s, d |-> MaxOf(e.x, 0)]
      [] e.how = "dilate2" -> e.r = [k |-> "dil", s |-> e.s, d |-> MaxOf(e.x + e.y, 0)]
      [] e.how = "dilate_sphere" -> e.r = [e.s EXCEPT !.r = MaxOf(@ + e.x, 0)]
      [] e.how = "roundrect" ->
           LET h == MinSeq([i \in 1..Len(e.s.lo) |-> e.s.hi[i] - e.s.lo[i]]) r == MinOf(e.x, h \div 2) IN
           e.r = [k |-> "dil", d |-> r, s |-> [e.s EXCEPT !.lo = [i \in DOMAIN @ |-> @[i] + r], !.hi = [i \in DOMAIN @ |-> @[i] - r]]]

RECURSIVE Traceable(_)
Traceable(s) == CASE s.k \in {"cap", "dil"} -> FALSE [] s.k \in {"sph", "box", "cyl", "spx"} -> TRUE [] OTHER -> Traceable(s.s)
RECURSIVE Projects(_)
Projects(s) == CASE s.k \in {"spx", "fru", "ori"} -> FALSE [] s.k \in {"ext", "dil"} -> Projects(s.s) [] OTHER -> TRUE

(* maps compose: the outer one acts last; dividing undoes *)
After(a, b) ==
    LET n == Len(a.t) IN
    [m |-> [i \in 1..n |-> [j \in 1..n |-> SumTo([k \in 1..n |-> a.m[i][k] * b.m[k][j]], n)]],
     t |-> [i \in 1..n |-> a.t[i] + SumTo([k \in 1..n |-> a.m[i][k] * b.t[k]], n)]]
MapOf(s) == [m |-> s.m, t |-> s.t]
ChainOk(e) ==
    LET o == MapOf(e.s)
        Put(f) == [e.s EXCEPT !.m = f.m, !.t = f.t]
    IN  /\ \A i \in 1..2 : e.mul[i] = Put(After(e.b, o))
        /\ \A i \in 1..2 : e.div[i].s = e.s.s /\ After(e.b, MapOf(e.div[i])) = o
        /\ e.back = e.s
        /\ e.ob = [Put(o) EXCEPT !.s = e.box]
        /\ (e.s.s.k = "box" => e.box = e.s.s)
        /\ (e.s.s.k = "sph" => e.box.lo = [i \in DOMAIN o.t |-> e.s.s.c[i] - e.s.s.r] /\ e.box.hi = [i \in DOMAIN o.t |-> e.s.s.c[i] + e.s.s.r])
        /\ e.eq /\ e.eq2 /\ e.ne = (After(e.b, After(o, e.b)) = o)

MyOk(e) ==
  CASE e.op = "At" -> AtOk(e)
    [] e.op = "Support" -> SupportOk(e)
    [] e.op = "Base" -> e.same /\ NearBox(e)
    [] e.op = "Build" -> BuildOk(e)
    [] e.op = "Xf" -> /\ e.r1 = e.s /\ e.r2 = e.s /\ e.ob = e.s
                      /\ \A i \in 1..Len(e.in) : \A j \in 1..4 : e.got[4 * (i - 1) + j] = e.in[i]
                      /\ e.vol = Abs(Det(e.s.m)) * ProdTo([i \in 1..3 |-> e.s.s.hi[i] - e.s.s.lo[i]], 3)
    [] e.op = "Traits" -> e.convex /\ (Traceable(e.s) => e.ray) /\ e.proj = Projects(e.s) /\ e.n = SpaceDim(e.s)
    [] e.op = "Chain" -> ChainOk(e)
    [] OTHER -> FALSE

F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
=================================================================================
