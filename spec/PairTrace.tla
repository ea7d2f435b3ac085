-------------------------------- MODULE PairTrace --------------------------------
(* Recorded verdicts on whether two shapes overlap.  The driver adds clues: points    *)
(* it believes to be in both, and a direction along which it believes them apart.     *)
(* A clue counts only if it checks out here, so clues cannot raise a false alarm.     *)
EXTENDS Shape, TraceKit
VARIABLE l

Neg(d) == VScale(-1, d)
(* how far a - b reaches along d: negative if d separates them *)
Reach(e, d) == Sup(e.a, d) + Sup(e.b, Neg(d))
Len1(d) == SumTo([i \in DOMAIN d |-> Abs(d[i])], Len(d))
Solid(s) == s.k # "spx" \/ Full(s)

InBoth(e) == \E i \in 1..Len(e.w) : Side(e.a, e.w[i], 4) > 0 /\ Side(e.b, e.w[i], 4) > 0
Apart(e, d) == Reach(e, d) < -4 * Len1(d)
Dirs(n) == IF n <= 3 THEN [1..n -> -1..1] \ {VZero(n)} ELSE {}
AnyApart(e) == Apart(e, e.d) \/ \E d \in Dirs(Len(e.d)) : Apart(e, d)

(* a sphere overlaps what is within its radius of its centre *)
Ball(x, y) == x.k = "sph" /\ HasDist(y)
Excess(x, y) == Dist(y, x.c, 1) - U * x.r

(* a separating direction, rounded to whole numbers: room for the rounding *)
Extent(s) == MaxSeq([i \in 1..SpaceDim(s) |-> MaxOf(Abs(BoundLo(s)[i]), Abs(BoundHi(s)[i]))])
SepOk(e) == /\ e.sep # VZero(Len(e.d))
            /\ Reach(e, e.sep) <= (Len(e.d) * (Extent(e.a) + Extent(e.b))) \div 2 + 4 * Len1(e.sep)

PairOk(e) ==
    /\ (Solid(e.a) /\ Solid(e.b) /\ InBoth(e)) => e.hit
    /\ e.hit => ~AnyApart(e)
    /\ Ball(e.a, e.b) => (Excess(e.a, e.b) < -4 => e.hit) /\ (Excess(e.a, e.b) > 4 => ~e.hit)
    /\ Ball(e.b, e.a) => (Excess(e.b, e.a) < -4 => e.hit) /\ (Excess(e.b, e.a) > 4 => ~e.hit)
    /\ e.sep # <<>> => SepOk(e)

(* the tests of spheres and boxes among themselves are exact, touching included *)
BoxBox(a, b) == \A i \in 1..Len(a.lo) : a.lo[i] <= b.hi[i] /\ b.lo[i] <= a.hi[i]
BallBall(a, b) == Mag2(VSub(a.c, b.c)) <= (a.r + b.r) * (a.r + b.r)
BallBox(a, b) == Mag2(PosPart(BoxGap(b.lo, b.hi, a.c, 1))) <= a.r * a.r
OwnOk(e) == CASE e.a.k = "box" /\ e.b.k = "box" -> e.hit = BoxBox(e.a, e.b)
              [] e.a.k = "sph" /\ e.b.k = "sph" -> e.hit = BallBall(e.a, e.b)
              [] e.a.k = "sph" /\ e.b.k = "box" -> e.hit = BallBox(e.a, e.b)
              [] e.a.k = "box" /\ e.b.k = "sph" -> e.hit = BallBox(e.b, e.a)
              [] OTHER -> TRUE

MyOk(e) == IF e.op = "Pair" THEN PairOk(e) /\ (e.how = "own" => OwnOk(e)) ELSE FALSE
F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
=================================================================================
