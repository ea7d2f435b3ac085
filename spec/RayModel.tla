--------------------------------- MODULE RayModel ---------------------------------
(* How the interval of a ray inside a shape is found: slabs for boxes, barycentric   *)
(* half-lines for simplexes, the wrapped shape's interval for wrappers, and for a     *)
(* frustum the interval of the ray's image in the plane of height one, as inverse     *)
(* heights.  A ray wanders about each shape; wherever it is, the interval found holds *)
(* exactly the multiples s at which o + s v is inside.                                *)
EXTENDS Shape, TLC
CONSTANTS Far, Steps                \* how far the origin wanders; how many moves
VARIABLES s, o, v, n

(* ends of intervals: <<num, den>> with den > 0, or den = 0 for an infinite end *)
Inf == <<1, 0>>   NegInf == <<-1, 0>>
R(a, b) == IF b < 0 THEN <<-a, -b>> ELSE <<a, b>>
Le(a, b) == IF a = NegInf \/ b = Inf THEN TRUE ELSE IF a = Inf \/ b = NegInf THEN FALSE ELSE a[1] * b[2] <= b[1] * a[2]
MaxR(a, b) == IF Le(a, b) THEN b ELSE a
MinR(a, b) == IF Le(a, b) THEN a ELSE b
None == <<Inf, NegInf>>
All == <<NegInf, Inf>>
Empty(h) == ~Le(h[1], h[2])
Meet(g, h) == IF Empty(g) \/ Empty(h) THEN None ELSE LET x == <<MaxR(g[1], h[1]), MinR(g[2], h[2])>> IN IF Empty(x) THEN None ELSE x
RECURSIVE MeetTo(_, _)
MeetTo(f, k) == IF k = 0 THEN All ELSE Meet(f[k], MeetTo(f, k - 1))
(* the t with a + t b >= 0 *)
HalfLine(a, b) == IF b = 0 THEN (IF a >= 0 THEN All ELSE None) ELSE IF b > 0 THEN <<R(-a, b), Inf>> ELSE <<NegInf, R(-a, b)>>
Slab(a, b, lo, hi) == Meet(HalfLine(a - lo, b), HalfLine(hi - a, -b))
(* one over the positive part of an interval *)
Recip(h) == IF Empty(h) \/ ~Le(<<0, 1>>, h[2]) \/ h[2] = <<0, 1>> \/ h[2][1] = 0 THEN None
            ELSE << IF h[2] = Inf THEN <<0, 1>> ELSE <<h[2][2], h[2][1]>>,
                    IF h[1] = NegInf \/ h[1][1] <= 0 THEN Inf ELSE <<h[1][2], h[1][1]>> >>
Minus(h) == IF Empty(h) THEN None ELSE << <<-h[2][1], h[2][2]>>, <<-h[1][1], h[1][2]>> >>

(* the interval of the ray a/q + t b/q, q > 0 *)
RECURSIVE Along(_, _, _, _)
Along(x, a, b, q) ==
    CASE x.k = "box" -> MeetTo([i \in 1..Len(a) |-> Slab(a[i], b[i], q * x.lo[i], q * x.hi[i])], Len(a))
      [] x.k = "spx" -> LET d == Sgn(Det(Edges(x.p))) IN
                        MeetTo([i \in 1..Len(x.p) |-> LET w == Bary(x.p, a, q, i) IN
                                   HalfLine(d * w, d * (Bary(x.p, VAdd(a, b), q, i) - w))], Len(x.p))
      [] x.k = "ext" -> Meet(IF Low(b) = VZero(Len(b) - 1) THEN (IF Side(x.s, Low(a), q) >= 0 THEN All ELSE None)
                             ELSE Along(x.s, Low(a), Low(b), q),
                             Slab(Top(a), Top(b), q * x.lo, q * x.hi))
      [] x.k = "ori" -> LET y == Unmap(x, a, q) z == Unmap([x EXCEPT !.t = VZero(Len(b))], b, q) IN Along(x.s, y[1], z[1], y[2])
      [] x.k = "fru" ->
           LET az == Top(a) bz == Top(b) lo == q * FLo(x) hi == q * x.hi IN
           IF bz = 0 THEN
              IF az < lo \/ az > hi THEN None
              ELSE IF az # 0 THEN Along(x.s, VScale(Sgn(az), Low(a)), VScale(Sgn(az), Low(b)), Abs(az))
              ELSE LET t == -Dot(a, b) m == Mag2(b) IN
                   IF VAdd(VScale(m, a), VScale(t, b)) = VZero(Len(a)) THEN <<R(t, m), R(t, m)>> ELSE None
           ELSE LET c == VScale(Sgn(bz), Low(b))                                       \* over |bz|
                    w == VSub(VScale(Abs(bz), Low(a)), VScale(az, c))                  \* over q |bz|
                    heights == <<<<lo, q>>, <<hi, q>>>>
                    z == IF w = VZero(Len(w))
                         THEN (IF Side(x.s, c, Abs(bz)) >= 0 THEN heights ELSE Meet(heights, <<<<0, 1>>, <<0, 1>>>>))
                         ELSE LET k == Along(x.s, VScale(q, c), w, q * Abs(bz)) IN
                              Meet(heights, IF FLo(x) < 0 THEN Minus(Recip(Minus(k))) ELSE Recip(k))
                    At(h) == IF h[2] = 0 THEN <<h[1] * Sgn(bz), 0>> ELSE R(q * h[1] - az * h[2], bz * h[2])
                IN  IF Empty(z) THEN None ELSE IF bz > 0 THEN <<At(z[1]), At(z[2])>> ELSE <<At(z[2]), At(z[1])>>

Box2 == [k |-> "box", lo |-> <<-1, 0>>, hi |-> <<1, 1>>]
Tri == [k |-> "spx", p |-> <<<<1, 0>>, <<-1, 1>>, <<-1, -1>>>>]
Far2 == [k |-> "box", lo |-> <<1, 1>>, hi |-> <<2, 3>>]
Shear == [m |-> <<<<1, 1>>, <<0, 1>>>>, t |-> <<0, -1>>]
Bases == {Box2, Tri, Far2, [k |-> "ori", s |-> Box2, m |-> Shear.m, t |-> Shear.t]}
Shapes == {[k |-> "ext", s |-> b, lo |-> -2, hi |-> 1] : b \in Bases}
     \cup {[k |-> "fru", s |-> b, lo |-> h[1], hi |-> h[2]] : b \in Bases, h \in {<<0, 1>>, <<1, 2>>, <<-1, 2>>, <<-2, -1>>, <<-2, 0>>}}
     \cup {[k |-> "box", lo |-> <<-1, 0, 0>>, hi |-> <<1, 1, 2>>],
           [k |-> "spx", p |-> <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 1, 2>>>>],
           [k |-> "ori", m |-> <<<<1, 0, 1>>, <<0, -1, 0>>, <<0, 0, 1>>>>, t |-> <<-1, 0, 0>>, s |-> [k |-> "fru", s |-> Box2, lo |-> 1, hi |-> 2]]}

Vecs(k) == [1..3 -> -k..k]
Init == s \in Shapes /\ o = VZero(3) /\ v \in Vecs(1) \ {VZero(3)} /\ n = 0
Move == \E i \in 1..3, d \in {-1, 1} : Abs(o[i] + d) <= Far /\ o' = [o EXCEPT ![i] = @ + d] /\ UNCHANGED v
Turn == \E i \in 1..3, d \in {-1, 1} : Abs(v[i] + d) <= 2 /\ v' = [v EXCEPT ![i] = @ + d] /\ v' # VZero(3) /\ UNCHANGED o
Next == n < Steps /\ n' = n + 1 /\ UNCHANGED s /\ (Move \/ Turn)
Spec == Init /\ [][Next]_<<s, o, v, n>>

Found == LET h == Along(s, o, v, 1) IN
         /\ Empty(h) => h = None
         /\ \A k \in -12..12 : (Le(h[1], <<k, 4>>) /\ Le(<<k, 4>>, h[2])) = (Side(s, VAdd(VScale(4, o), VScale(k, v)), 4) >= 0)
=================================================================================
