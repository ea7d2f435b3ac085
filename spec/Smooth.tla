-------------------------------- MODULE Smooth ----------------------------------
(* Functions eased together from straight pieces by the quintic 6t^5 - 15t^4 + 10t^3: *)
(* gradient noise on a grid, and paths through knots.                                 *)
(* Places are in quarters of a grid cell.  The ease of t quarters is EaseN[t]/EaseD[t]*)
(* and its slope SlopeN[t]/EaseD[t].                                                  *)
EXTENDS Integers, Sequences

EaseD(t)  == IF t \in {1, 3} THEN 512 ELSE IF t = 2 THEN 8 ELSE 1
EaseN(t)  == CASE t = 0 -> 0 [] t = 1 -> 53 [] t = 2 -> 4 [] t = 3 -> 459 [] t = 4 -> 1
SlopeN(t) == CASE t = 0 -> 0 [] t = 1 -> 540 [] t = 2 -> 15 [] t = 3 -> 540 [] t = 4 -> 0

RECURSIVE DotTo(_, _, _)
DotTo(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + DotTo(a, b, n - 1)
Dot(a, b) == DotTo(a, b, Len(a))
Bit(c, a) == (c \div 2^(a - 1)) % 2

\* The value of noise at p, within the cell whose corner c (a bit for each axis) has the gradient g[c + 1].
\* In units of 1/ProdD of one quarter of the gradients' unit.
RECURSIVE ProdD(_, _)
ProdD(p, n) == IF n = 0 THEN 1 ELSE EaseD(p[n]) * ProdD(p, n - 1)
RECURSIVE Fold(_, _, _)
\* corners whose bits above axis a are those of c; the axes up to a are eased together
Fold(f, p, a) ==
  IF a = 0 THEN f
  ELSE LET lo == Fold(f, p, a - 1)
           w == EaseN(p[a]) d == EaseD(p[a])
       IN  [j \in 1..(Len(lo) \div 2) |-> (d - w) * lo[2 * j - 1] + w * lo[2 * j]]
\* the same, of the slope along axis k when f are the values and s the slopes of the pieces along k
RECURSIVE FoldSlope(_, _, _, _, _)
FoldSlope(f, s, p, a, k) ==
  IF a = 0 THEN s
  ELSE LET lo == Fold(f, p, a - 1)
           ls == FoldSlope(f, s, p, a - 1, k)
           w == EaseN(p[a]) d == EaseD(p[a])
       IN  [j \in 1..(Len(lo) \div 2) |->
              (d - w) * ls[2 * j - 1] + w * ls[2 * j]
              + (IF a = k THEN SlopeN(p[a]) * (lo[2 * j] - lo[2 * j - 1]) ELSE 0)]
Pieces(g, p) == [c \in 1..Len(g) |-> DotTo([a \in 1..Len(p) |-> p[a] - 4 * Bit(c - 1, a)], g[c], Len(p))]
Noise(g, p) == Fold(Pieces(g, p), p, Len(p))[1]
\* per cell, so in units of 1/(4 ProdD) of the gradients' unit
NoiseSlope(g, p, k) == FoldSlope(Pieces(g, p), [c \in 1..Len(g) |-> 4 * g[c][k]], p, Len(p), k)[1]

\* A path: a sequence of knots <<place, velocity>>, at time t in quarters; in units of 1/(4 EaseD)
PathAt(ks, t, a) ==
  LET n == Len(ks)
      i == t \div 4
      straight(j, dt) == 4 * ks[j][1][a] + dt * ks[j][2][a]
  IN  IF n = 0 THEN 0
      ELSE IF t < 0 THEN straight(1, t)
      ELSE IF i >= n - 1 THEN straight(n, t - 4 * (n - 1))
      ELSE LET f == t - 4 * i
           IN  (EaseD(f) - EaseN(f)) * straight(i + 1, f) + EaseN(f) * straight(i + 2, f - 4)
PathD(ks, t) == IF t < 0 \/ t \div 4 >= Len(ks) - 1 THEN 1 ELSE EaseD(t % 4)
===================================================================================
