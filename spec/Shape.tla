---------------------------------- MODULE Shape ----------------------------------
(* Convex shapes and the wrappers that build one from another, described three      *)
(* times over, in whole numbers only:                                               *)
(*   Side(s, P, q)   whether the point P/q is inside (1), outside (-1), or on the   *)
(*                   surface (0; or too close to it to tell, see Sharp)             *)
(*   Sup(s, d)       the support value: the largest p.d over the points p of s      *)
(*   Dist(s, P, q)   the signed distance from P/q to the surface                    *)
(* Sup and Dist are in units of 1/U, rounded.  ShapeModel shows that the three      *)
(* describe one point set; ShapeTrace judges the library by them.                   *)
(*                                                                                  *)
(* A shape is a record: sph(c, r)  box(lo, hi)  cap(a, b, r)  cyl(a, b, r)          *)
(* spx(p) with p a sequence of vertices;  ext(s, lo, hi) and fru(s, lo, hi) which   *)
(* raise a shape of one dimension less;  ori(s, m, t): the image of s under         *)
(* x -> m x + t;  dil(s, d): all points within d of s.                              *)
EXTENDS LinAlg

U == 256

RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Bisect(n, m, hi) ELSE Bisect(n, lo, m)
ISqrt(n) == IF n <= 0 THEN 0 ELSE IF n < 65536 THEN Bisect(n, 0, 256) ELSE Bisect(n, 255, 46341)
(* U * sqrt(a / b), for b > 0 *)
RECURSIVE Root(_, _)
Root(a, b) == IF a <= 0 THEN 0
              ELSE IF b > 32767 THEN Root(a \div 2, b \div 2)
              ELSE LET w == a \div b IN
                   IF w <= 32000 THEN ISqrt(w * 65536 + ((a % b) * 65536) \div b)
                   ELSE IF w <= 8000000 THEN 16 * ISqrt(w * 256) ELSE 256 * ISqrt(w)

Pow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128}
RECURSIVE SpaceDim(_)
SpaceDim(s) == CASE s.k = "sph" -> Len(s.c)
             [] s.k = "box" -> Len(s.lo)
             [] s.k \in {"cap", "cyl"} -> Len(s.a)
             [] s.k = "spx" -> Len(s.p[1])
             [] s.k \in {"ext", "fru"} -> SpaceDim(s.s) + 1
             [] OTHER -> SpaceDim(s.s)

Low(v) == [i \in 1..(Len(v) - 1) |-> v[i]]         \* all but the last coordinate
Top(v) == v[Len(v)]
MinSeq(f) == CHOOSE x \in {f[i] : i \in DOMAIN f} : \A i \in DOMAIN f : x <= f[i]
MaxSeq(f) == CHOOSE x \in {f[i] : i \in DOMAIN f} : \A i \in DOMAIN f : x >= f[i]

(* the part of the height range of a frustum that belongs to it *)
FLo(s) == IF s.lo < 0 /\ s.hi > 0 THEN 0 ELSE s.lo

(* the square of the distance from P/q to the segment from a to b, as <<num, den>> *)
SegD2(a, b, P, q) ==
    LET A == VSub(b, a) A2 == Mag2(A) x == VSub(P, VScale(q, a)) t == Dot(x, A)
    IN  IF t <= 0 THEN <<Mag2(x), q * q>>
        ELSE IF t >= q * A2 THEN <<Mag2(VSub(P, VScale(q, b))), q * q>>
        ELSE <<Mag2(x) * A2 - t * t, q * q * A2>>
(* the vector from box lo..hi to P, times q *)
BoxGap(lo, hi, P, q) == [i \in 1..Len(P) |-> MaxOf(q * lo[i] - P[i], P[i] - q * hi[i])]
PosPart(v) == [i \in DOMAIN v |-> MaxOf(v[i], 0)]

(* the inverse of the map x -> m x + t at P/q: a point over q * |det m| *)
Adj(m) == LET n == Len(m) Cof(i, j) ==
                LET r == [k \in 1..(n - 1) |-> [l \in 1..(n - 1) |-> m[IF k < i THEN k ELSE k + 1][IF l < j THEN l ELSE l + 1]]]
                IN (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(r)
          IN  IF n = 2 THEN <<<<m[2][2], -m[1][2]>>, <<-m[2][1], m[1][1]>>>>
              ELSE IF n = 3 THEN <<<<Cof(1, 1), Cof(2, 1), Cof(3, 1)>>, <<Cof(1, 2), Cof(2, 2), Cof(3, 2)>>, <<Cof(1, 3), Cof(2, 3), Cof(3, 3)>>>>
              ELSE [i \in 1..n |-> [j \in 1..n |-> Cof(j, i)]]
Unmap(s, P, q) == LET d == Det(s.m) y == MVec(Adj(s.m), VSub(P, VScale(q, s.t)))
                  IN  <<VScale(Sgn(d), y), q * Abs(d)>>

(* the simplex: orientation of the vertices with the i-th replaced by P/q, times q *)
Bary(p, P, q, i) == LET n == Len(P)
                        x(j) == IF j = i THEN P ELSE VScale(q, p[j])
                        e == [j \in 1..n |-> [k \in 1..n |-> x(j + 1)[k] - x(1)[k]]]
                    IN  Det(e)
Edges(p) == [j \in 1..(Len(p) - 1) |-> VSub(p[j + 1], p[1])]
Full(s) == Len(s.p) = Len(s.p[1]) + 1 /\ Det(Edges(s.p)) # 0

(* ------------------------------------------------------------ signed distance *)
(* the parts of a distance across and along an axis of a straight shape *)
Join(r, h) == IF r <= 0 /\ h <= 0 THEN MaxOf(r, h)
              ELSE IF r <= 0 THEN h ELSE IF h <= 0 THEN r ELSE ISqrt(r * r + h * h)
TriNormal(a, b, c) == Cross(VSub(b, a), VSub(c, a))
(* distance to a triangle in space *)
TriDist(a, b, c, P, q) ==
    LET n == TriNormal(a, b, c)
        Within(u, v) == Dot(Cross(VSub(v, u), n), VSub(P, VScale(q, u))) <= 0
        x == Dot(n, VSub(P, VScale(q, a)))
        E(u, v) == LET r == SegD2(u, v, P, q) IN Root(r[1], r[2])
    IN  IF Within(a, b) /\ Within(b, c) /\ Within(c, a) THEN Root(x * x, q * q * Mag2(n))
        ELSE MinOf(E(a, b), MinOf(E(b, c), E(c, a)))
RECURSIVE HullDist(_, _, _)
HullDist(p, P, q) ==      \* distance to the surface of the simplex with vertices p
    CASE Len(p) = 1 -> Root(Mag2(VSub(P, VScale(q, p[1]))), q * q)
      [] Len(p) = 2 -> LET r == SegD2(p[1], p[2], P, q) IN Root(r[1], r[2])
      [] Len(p) = 3 /\ Len(P) = 3 -> TriDist(p[1], p[2], p[3], P, q)
      [] OTHER -> MinSeq([i \in 1..Len(p) |-> HullDist([j \in 1..(Len(p) - 1) |-> p[IF j < i THEN j ELSE j + 1]], P, q)])
InSimplex(s, P, q) == Full(s) /\ LET d == Sgn(Det(Edges(s.p))) IN \A i \in 1..Len(s.p) : Sgn(Bary(s.p, P, q, i)) * d >= 0

RECURSIVE HasDist(_)
HasDist(s) == CASE s.k \in {"sph", "box", "cap", "cyl"} -> TRUE
                [] s.k = "spx" -> SpaceDim(s) \in {2, 3}
                [] s.k \in {"ext", "dil"} -> HasDist(s.s)
                [] OTHER -> FALSE
RECURSIVE Dist(_, _, _)
Dist(s, P, q) ==
    CASE s.k = "sph" -> Root(Mag2(VSub(P, VScale(q, s.c))), q * q) - U * s.r
      [] s.k = "box" -> LET g == BoxGap(s.lo, s.hi, P, q) IN
                        IF MaxSeq(g) <= 0 THEN -((-U * MaxSeq(g)) \div q) ELSE Root(Mag2(PosPart(g)), q * q)
      [] s.k = "cap" -> LET r == SegD2(s.a, s.b, P, q) IN Root(r[1], r[2]) - U * s.r
      [] s.k = "cyl" -> LET A == VSub(s.b, s.a) A2 == Mag2(A) x == VSub(P, VScale(q, s.a)) t == Dot(x, A)
                            h == MaxOf(-t, t - q * A2)
                        IN  Join(Root(Mag2(x) * A2 - t * t, q * q * A2) - U * s.r, Sgn(h) * Root(h * h, q * q * A2))
      [] s.k = "ext" -> LET h == MaxOf(q * s.lo - Top(P), Top(P) - q * s.hi)
                        IN  Join(Dist(s.s, Low(P), q), Sgn(h) * ((U * Abs(h)) \div q))
      [] s.k = "dil" -> Dist(s.s, P, q) - U * s.d
      [] s.k = "spx" -> (IF InSimplex(s, P, q) THEN -1 ELSE 1) * HullDist(s.p, P, q)

(* ------------------------------------------------------------ inside or outside *)
RECURSIVE Side(_, _, _)
Side(s, P, q) ==
    CASE s.k = "sph" -> Sgn(s.r * s.r * q * q - Mag2(VSub(P, VScale(q, s.c))))
      [] s.k = "box" -> -Sgn(MaxSeq(BoxGap(s.lo, s.hi, P, q)))
      [] s.k = "cap" -> LET r == SegD2(s.a, s.b, P, q) IN Sgn(s.r * s.r * r[2] - r[1])
      [] s.k = "cyl" -> LET A == VSub(s.b, s.a) A2 == Mag2(A) x == VSub(P, VScale(q, s.a)) t == Dot(x, A)
                        IN  MinOf(Sgn(s.r * s.r * q * q * A2 - (Mag2(x) * A2 - t * t)), Sgn(MinOf(t, q * A2 - t)))
      [] s.k = "ext" -> MinOf(Side(s.s, Low(P), q), Sgn(MinOf(Top(P) - q * s.lo, q * s.hi - Top(P))))
      [] s.k = "fru" -> LET z == Top(P) h == Sgn(MinOf(z - q * FLo(s), q * s.hi - z)) IN
                        IF h < 0 THEN -1
                        ELSE IF z = 0 THEN (IF Low(P) = VZero(Len(P) - 1) THEN 0 ELSE -1)
                        ELSE MinOf(h, Side(s.s, VScale(Sgn(z), Low(P)), Abs(z)))
      [] s.k = "ori" -> LET x == Unmap(s, P, q) IN Side(s.s, x[1], x[2])
      [] s.k = "dil" -> (CASE s.s.k = "box" -> LET g == BoxGap(s.s.lo, s.s.hi, P, q) IN
                                               IF MaxSeq(g) < 0 THEN 1 ELSE Sgn(s.d * s.d * q * q - Mag2(PosPart(g)))
                           [] OTHER -> LET x == Dist(s, P, q) IN IF Abs(x) <= 4 THEN 0 ELSE -Sgn(x))
      [] s.k = "spx" -> IF ~Full(s) THEN -1
                        ELSE LET d == Sgn(Det(Edges(s.p))) IN MinSeq([i \in 1..Len(s.p) |-> d * Sgn(Bary(s.p, P, q, i))])

(* Side is exact at P/q, and so is binary arithmetic there *)
RECURSIVE Sharp(_, _, _)
Sharp(s, P, q) ==
    CASE s.k \in {"sph", "box"} -> Pow2(q)
      [] s.k \in {"cap", "cyl"} -> Pow2(q) /\ Pow2(Mag2(VSub(s.b, s.a)))
      [] s.k = "ext" -> Sharp(s.s, Low(P), q)
      [] s.k = "fru" -> Pow2(q) /\ (Top(P) = 0 \/ (Pow2(Abs(Top(P))) /\ Sharp(s.s, VScale(Sgn(Top(P)), Low(P)), Abs(Top(P)))))
      [] s.k = "ori" -> /\ \A i \in 1..Len(s.m) : Cardinality({j \in 1..Len(s.m) : s.m[i][j] # 0}) = 1
                        /\ Pow2(Abs(Det(s.m)))
                        /\ LET x == Unmap(s, P, q) IN Sharp(s.s, x[1], x[2])
      [] s.k = "dil" -> s.s.k = "box" /\ Pow2(q)
      [] s.k = "spx" -> /\ Pow2(q)
                        /\ \A i \in 2..Len(s.p) : LET e == VSub(s.p[i], s.p[1]) IN
                              Cardinality({j \in DOMAIN e : e[j] # 0}) = 1 /\ Pow2(Abs(SumTo(e, Len(e))))

(* ------------------------------------------------------------ support *)
RECURSIVE Sup(_, _)
Sup(s, d) ==
    CASE s.k = "sph" -> U * Dot(s.c, d) + Root(s.r * s.r * Mag2(d), 1)
      [] s.k = "box" -> U * SumTo([i \in 1..Len(d) |-> MaxOf(s.lo[i] * d[i], s.hi[i] * d[i])], Len(d))
      [] s.k = "cap" -> U * MaxOf(Dot(s.a, d), Dot(s.b, d)) + Root(s.r * s.r * Mag2(d), 1)
      [] s.k = "cyl" -> LET A == VSub(s.b, s.a) A2 == Mag2(A) t == Dot(A, d)
                        IN  U * MaxOf(Dot(s.a, d), Dot(s.b, d)) + Root(s.r * s.r * (Mag2(d) * A2 - t * t), A2)
      [] s.k = "ext" -> Sup(s.s, Low(d)) + U * MaxOf(s.lo * Top(d), s.hi * Top(d))
      [] s.k = "fru" -> LET At(z) == Abs(z) * Sup(s.s, VScale(Sgn(z), Low(d))) + U * z * Top(d)
                        IN  MaxOf(At(FLo(s)), At(s.hi))
      [] s.k = "ori" -> Sup(s.s, MVec(Transp(s.m), d)) + U * Dot(s.t, d)
      [] s.k = "dil" -> Sup(s.s, d) + Root(s.d * s.d * Mag2(d), 1)
      [] s.k = "spx" -> U * MaxSeq([i \in 1..Len(s.p) |-> Dot(s.p[i], d)])

Axis(n, i, v) == [j \in 1..n |-> IF j = i THEN v ELSE 0]
(* the bounding box, in 1/U *)
BoundLo(s) == [i \in 1..SpaceDim(s) |-> -Sup(s, Axis(SpaceDim(s), i, -1))]
BoundHi(s) == [i \in 1..SpaceDim(s) |-> Sup(s, Axis(SpaceDim(s), i, 1))]
=================================================================================
