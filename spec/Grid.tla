---------------------------------- MODULE Grid ----------------------------------
(* Lattice points of a box, ordered with one axis varying fastest.  Points are    *)
(* sequences; Axes(n, first) lists the axes from fastest to slowest.              *)
EXTENDS Integers, Sequences

Axes(n, first) == [i \in 1..n |-> IF first THEN i ELSE n + 1 - i]
Dim(lo, hi, a) == hi[a] - lo[a] + 1
RECURSIVE Stride(_, _, _, _)
Stride(lo, hi, ax, i) == IF i = 1 THEN 1 ELSE Stride(lo, hi, ax, i - 1) * Dim(lo, hi, ax[i - 1])
Volume(lo, hi, ax) == Stride(lo, hi, ax, Len(ax) + 1)

RECURSIVE OrdUpto(_, _, _, _, _)
OrdUpto(lo, hi, ax, pt, i) ==
    IF i = 0 THEN 0
    ELSE (pt[ax[i]] - lo[ax[i]]) * Stride(lo, hi, ax, i) + OrdUpto(lo, hi, ax, pt, i - 1)
(* ordinal of a point; off-end points have ordinals beyond the volume *)
Ord(lo, hi, ax, pt) == OrdUpto(lo, hi, ax, pt, Len(ax))

(* the point with ordinal k: all axes but the slowest wrap *)
Where(ax, a) == CHOOSE i \in 1..Len(ax) : ax[i] = a
PointAt(lo, hi, ax, k) ==
    [a \in 1..Len(ax) |->
        LET i == Where(ax, a)
            q == k \div Stride(lo, hi, ax, i)
        IN  lo[a] + (IF i = Len(ax) THEN q ELSE q % Dim(lo, hi, a))]

(* a cell of a matrix, row by row (zero-based) *)
Cell(cols, k) == <<k \div cols, k % cols>>
=================================================================================
