------------------------------- MODULE RectModel --------------------------------
(* A box under any history of set operations, beside the set of lattice points it  *)
(* stands for: the coordinatewise rules of module Rect are exactly the set         *)
(* operations.                                                                     *)
EXTENDS Rect
CONSTANTS N, W        \* dimension; coordinates 0..W
VARIABLES box, pts, shown     \* shown: the operation just made holds of the sets as required

Coord == 0..W
Pt == [1..N -> Coord]
Big == [1..N -> -W..(2 * W)]
Box == {<<lo, hi>> : lo \in Pt, hi \in Pt}
Nil == <<[i \in 1..N |-> W], [i \in 1..N |-> 0]>>
Points(r) == {p \in Pt : In(p, r)}
Hull(S) == {p \in Pt : \A i \in 1..N : \E x \in S : x[i] <= p[i] /\ \E y \in S : p[i] <= y[i]}
vars == <<box, pts, shown>>

Init == box \in Box /\ pts = Points(box) /\ shown = TRUE

AddPoint(p) == /\ box' = UnionPt(box, p)
               /\ pts' = Points(box')
               /\ shown' = (IF pts = {} THEN p \in pts' ELSE pts' = Hull(pts \cup {p}))
AddBox(b) == /\ box' = Union(box, b)
             /\ pts' = Points(box')
             /\ shown' = (IF pts = {} \/ Points(b) = {} THEN pts \cup Points(b) \subseteq pts' ELSE pts' = Hull(pts \cup Points(b)))
Confine(b) == /\ box' = Inter(box, b)
              /\ pts' = pts \cap Points(b)
              /\ shown' = TRUE
Remove(b) == /\ box' = Exclude(box, b, 1)
             /\ pts' = Points(box')
             /\ shown' = /\ pts' \subseteq pts
                         /\ Empty(b) \/ pts' \cap Points(b) = {}
                         /\ (N = 1 /\ ~Empty(b) /\ ~(Points(b) \subseteq pts)) => pts' = pts \ Points(b)
Questions(b) == /\ UNCHANGED <<box, pts>>
    /\ shown' = /\ Meets(box, b) = (pts \cap Points(b) # {})
                /\ Contains(box, b) = (Points(b) \subseteq pts)
                /\ Empty(box) = (pts = {})
                /\ Volume(box, 1) = Cardinality(pts)
                /\ (pts # {} /\ Points(b) # {}) =>
                     {q \in Big : In(q, Sum(box, b))} = {VAdd(p, q) : p \in pts, q \in Points(b)}
Nearest(p) == /\ UNCHANGED <<box, pts>>
    /\ shown' = (pts # {} =>
                   /\ Clip(box, p) \in pts /\ \A q \in pts : D2(p, Clip(box, p)) <= D2(p, q)
                   /\ LET B == {q \in pts : OnBoundary(box, q)} IN
                        /\ \E q \in B : D2(p, q) = BoundaryD2(box, p)
                        /\ \A q \in B : BoundaryD2(box, p) <= D2(p, q))

Next == \/ \E p \in Pt : AddPoint(p) \/ Nearest(p)
        \/ \E b \in Box : AddBox(b) \/ Confine(b) \/ Remove(b) \/ Questions(b)
Spec == Init /\ [][Next]_vars

Represents == pts = Points(box)
Agrees == shown
=================================================================================
