------------------------------- MODULE ShapeModel --------------------------------
(* Shapes built step by step from plain ones by extruding, raising into a frustum,  *)
(* orienting and dilating.  Whatever the history of wrappers, the three            *)
(* descriptions of module Shape agree on one point set.                            *)
EXTENDS Shape, TLC
CONSTANTS Depth, Q, Reach, DirReach    \* wrappers; points k/Q with |k| <= Reach; directions
VARIABLES s, depth, law                \* law: which of the claims is looked at

W3 == <<<<0, 0>>, <<2, 0>>, <<0, 1>>>>
Plain2 == {[k |-> "sph", c |-> <<0, 0>>, r |-> 1], [k |-> "sph", c |-> <<1, -1>>, r |-> 2],
           [k |-> "box", lo |-> <<-1, 0>>, hi |-> <<1, 1>>],
           [k |-> "cap", a |-> <<-1, 0>>, b |-> <<1, 1>>, r |-> 1],
           [k |-> "cyl", a |-> <<0, 0>>, b |-> <<1, 2>>, r |-> 1],
           [k |-> "spx", p |-> W3], [k |-> "spx", p |-> <<<<1, 0>>, <<-1, 1>>, <<-1, -1>>>>]}
Plain3 == {[k |-> "sph", c |-> <<0, 1, 0>>, r |-> 2],
           [k |-> "cap", a |-> <<0, 0, 0>>, b |-> <<1, 1, 1>>, r |-> 1],
           [k |-> "cyl", a |-> <<0, 0, -1>>, b |-> <<0, 1, 1>>, r |-> 1],
           [k |-> "spx", p |-> <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 2, 0>>, <<0, 1, 2>>>>]}
Maps(n) == IF n = 2 THEN {[m |-> <<<<0, -1>>, <<1, 0>>>>, t |-> <<1, 0>>], [m |-> <<<<1, 1>>, <<0, 1>>>>, t |-> <<0, -1>>],
                          [m |-> <<<<-1, 0>>, <<0, 2>>>>, t |-> <<0, 0>>]}
           ELSE {[m |-> <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>, t |-> <<0, 0, 1>>],
                 [m |-> <<<<1, 0, 1>>, <<0, -1, 0>>, <<0, 0, 1>>>>, t |-> <<-1, 0, 0>>]}

Init == s \in Plain2 \cup Plain3 /\ depth = 0 /\ law \in 1..7
Wrap(x) == depth < Depth /\ s' = x /\ depth' = depth + 1 /\ law' = law
Extrude(lo, hi) == SpaceDim(s) = 2 /\ Wrap([k |-> "ext", s |-> s, lo |-> lo, hi |-> hi])
Raise(lo, hi)   == SpaceDim(s) = 2 /\ Wrap([k |-> "fru", s |-> s, lo |-> lo, hi |-> hi])
Orient(x)       == Wrap([k |-> "ori", s |-> s, m |-> x.m, t |-> x.t])
Dilate(d)       == HasDist(s) /\ s.k # "dil" /\ Wrap([k |-> "dil", s |-> s, d |-> d])
Next == \/ \E h \in {<<0, 1>>, <<-2, 1>>} : Extrude(h[1], h[2])
        \/ \E h \in {<<0, 1>>, <<1, 2>>, <<-1, 2>>, <<-2, -1>>} : Raise(h[1], h[2])
        \/ \E x \in Maps(SpaceDim(s)) : Orient(x)
        \/ Dilate(1)
Spec == Init /\ [][Next]_<<s, depth, law>>

Pts == [1..SpaceDim(s) -> -Reach..Reach]
Dirs == [1..SpaceDim(s) -> -DirReach..DirReach] \ {VZero(SpaceDim(s))}
Tol == 6
Len1(d) == SumTo([i \in DOMAIN d |-> Abs(d[i])], Len(d))

H == TLCEval([d \in Dirs |-> Sup(s, d)])
D == TLCEval([P \in Pts |-> Dist(s, P, Q)])
Sides == TLCEval([P \in Pts |-> Side(s, P, Q)])

(* points of the shape lie within every supporting half-space *)
WithinSupport == LET h == H IN \A P \in Pts : Side(s, P, Q) >= 0 => \A d \in Dirs : U * Dot(P, d) <= Q * (h[d] + Tol)
(* and every supporting half-space touches it (as closely as the grid can tell, for shapes inside the grid) *)
Inside == \A i \in 1..SpaceDim(s) : BoundHi(s)[i] * Q <= U * Reach /\ BoundLo(s)[i] * Q >= -U * Reach
SupportTight == Inside => LET h == H In == {P \in Pts : Side(s, P, Q) >= 0} IN
                   \A d \in Dirs : \E P \in In : Q * h[d] <= U * Dot(P, d) + 2 * U * Len1(d)
(* support values grow subadditively, as those of a convex set *)
Subadditive == LET h == H IN \A d, f \in Dirs : VAdd(d, f) \in Dirs => h[VAdd(d, f)] <= h[d] + h[f] + Tol
(* the sign of the distance tells the sides apart *)
SignOfDistance == HasDist(s) => \A P \in Pts : LET x == Dist(s, P, Q) IN
                     IF Abs(x) > Tol THEN Side(s, P, Q) = -Sgn(x) \/ (s.k = "spx" /\ ~Full(s)) ELSE TRUE
(* the distance changes no faster than the point moves; outside, it is at least the excess over any
   supporting half-space; inside, at most the depth below each *)
Lipschitz == HasDist(s) => LET x == D IN \A P \in Pts : \A i \in 1..SpaceDim(s) :
                P[i] < Reach => Abs(x[[P EXCEPT ![i] = @ + 1]] - x[P]) <= U \div Q + Tol
BeyondSupport == HasDist(s) => LET h == H IN \A P \in Pts : \* Dist >= (p.d - h(d)) / |d|
                LET e == Dist(s, P, Q) IN \A d \in Dirs :
                LET x == (U * Dot(P, d)) \div Q - h[d]
                IN  IF x > Tol THEN e > 0 /\ (e + Tol) * (e + Tol) * Mag2(d) >= x * x
                    ELSE IF e < -Tol THEN (e + Tol) * (e + Tol) * Mag2(d) <= (x - Tol) * (x - Tol) ELSE TRUE
(* no segment leaves the shape and comes back *)
Convex == LET x == Sides In == {P \in Pts : x[P] > 0} IN \A P \in In : \A R \in In :
             LET M == VAdd(P, R) IN
             IF \A i \in DOMAIN M : M[i] % 2 = 0 THEN x[[i \in DOMAIN M |-> M[i] \div 2]] >= 0 ELSE Side(s, M, 2 * Q) >= 0
Holds == CASE law = 1 -> WithinSupport [] law = 2 -> SupportTight [] law = 3 -> Subadditive [] law = 4 -> SignOfDistance
           [] law = 5 -> Lipschitz [] law = 6 -> BeyondSupport [] law = 7 -> Convex
=================================================================================
