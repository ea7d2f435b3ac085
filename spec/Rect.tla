---------------------------------- MODULE Rect ----------------------------------
(* Boxes of points of a lattice, as <<lo, hi>>, both ends included.  An axis with  *)
(* lo > hi makes the box empty.  m is 1 when the box is one of whole numbers (its  *)
(* length counts them) and 0 when the lattice merely samples a continuum.          *)
EXTENDS LinAlg

Dim(r) == Len(r[1])
In(p, r) == \A i \in 1..Len(p) : r[1][i] <= p[i] /\ p[i] <= r[2][i]
Empty(r) == \E i \in 1..Dim(r) : r[1][i] > r[2][i]
VMin(u, v) == [i \in 1..Len(u) |-> MinOf(u[i], v[i])]
VMax(u, v) == [i \in 1..Len(u) |-> MaxOf(u[i], v[i])]
Span(p, q) == <<VMin(p, q), VMax(p, q)>>

Union(a, b) == <<VMin(a[1], b[1]), VMax(a[2], b[2])>>
UnionPt(a, p) == <<VMin(a[1], p), VMax(a[2], p)>>
Inter(a, b) == <<VMax(a[1], b[1]), VMin(a[2], b[2])>>
Shift(a, d) == <<VAdd(a[1], d), VAdd(a[2], d)>>
Grow(a, d) == <<VSub(a[1], d), VAdd(a[2], d)>>
Sum(a, b) == <<VAdd(a[1], b[1]), VAdd(a[2], b[2])>>
Contains(a, b) == Empty(b) \/ \A i \in 1..Dim(a) : a[1][i] <= b[1][i] /\ b[2][i] <= a[2][i]
Meets(a, b) == ~Empty(Inter(a, b))
Apart(a, b) == \E i \in 1..Dim(a) : a[2][i] <= b[1][i] \/ b[2][i] <= a[1][i]   \* no common interior

Lengths(a, m) == [i \in 1..Dim(a) |-> a[2][i] - a[1][i] + m]
Volume(a, m) == ProdTo([i \in 1..Dim(a) |-> MaxOf(Lengths(a, m)[i], 0)], Dim(a))

Clip(a, p) == VMin(a[2], VMax(a[1], p))
D2(p, q) == Mag2(VSub(p, q))
OnBoundary(a, p) == In(p, a) /\ \E i \in 1..Len(p) : p[i] = a[1][i] \/ p[i] = a[2][i]
FaceDist(a, p) == CHOOSE d \in 0..10000 :
    /\ \A i \in 1..Len(p) : d <= p[i] - a[1][i] /\ d <= a[2][i] - p[i]
    /\ \E i \in 1..Len(p) : d = p[i] - a[1][i] \/ d = a[2][i] - p[i]
BoundaryD2(a, p) == IF In(p, a) THEN FaceDist(a, p) * FaceDist(a, p) ELSE D2(p, Clip(a, p))

(* Exclusion along one axis, of the range b: a range that b splits or equals        *)
(* vanishes; one that b covers on both sides is left to the other axes.            *)
NoRange(x) == x[1] > x[2]
Cut(x, b, m) == IF NoRange(b) THEN x
            ELSE IF b[1] < x[1] /\ b[2] > x[2] THEN x
            ELSE IF b[1] >= x[1] /\ b[2] <= x[2] THEN <<1, 0>>
            ELSE IF b[1] < x[1] THEN <<MaxOf(x[1], b[2] + m), x[2]>>
            ELSE <<x[1], MinOf(x[2], b[1] - m)>>
AxisOf(a, i) == <<a[1][i], a[2][i]>>
Exclude(a, b, m) ==
    IF ~Empty(b) /\ Contains(b, a) THEN <<[i \in 1..Dim(a) |-> 1], [i \in 1..Dim(a) |-> 0]>>
    ELSE <<[i \in 1..Dim(a) |-> Cut(AxisOf(a, i), AxisOf(b, i), m)[1]], [i \in 1..Dim(a) |-> Cut(AxisOf(a, i), AxisOf(b, i), m)[2]]>>

(* the least displacement of a that leaves it touching b without overlap *)
Gap(a, b, i) == LET d0 == b[1][i] - a[2][i] d1 == b[2][i] - a[1][i] IN IF Abs(d0) < Abs(d1) THEN d0 ELSE d1
(* equal as sets of points *)
Same(a, b) == (Empty(a) /\ Empty(b)) \/ a = b
=================================================================================
