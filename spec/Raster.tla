--------------------------------- MODULE Raster ---------------------------------
(* A raster: a grid of samples which can be read, written, and sampled between and *)
(* beyond the grid points.  A raster is a record                                   *)
(*   ext    samples along each axis           lo, hi   domain of sampling space    *)
(*   data   grid point -> channels            abyss    channels beyond the edges   *)
(* Sampling coordinates are fractions of the grid's cells, k/d on each axis; values *)
(* are given times Unit, which makes them integers.                                *)
EXTENDS Integers, Sequences, FiniteSets

Axes(r) == 1..Len(r.ext)
\* grid points are sequences of integers, one per axis, counted from zero
RECURSIVE Grid(_)
Grid(ext) == IF ext = <<>> THEN {<<>>}
             ELSE {<<c>> \o rest : c \in 0..ext[1]-1, rest \in Grid(Tail(ext))}
RECURSIVE Volume(_)
Volume(ext) == IF ext = <<>> THEN 1 ELSE ext[1] * Volume(Tail(ext))
\* position of a grid point in an array laid out first dimension consecutive
RECURSIVE Ordinal(_, _)
Ordinal(ext, p) == IF ext = <<>> THEN 0 ELSE p[1] + ext[1] * Ordinal(Tail(ext), Tail(p))

Inside(r, p) == \A a \in Axes(r) : 0 <= p[a] /\ p[a] < r.ext[a]

Policies == {"clamp", "periodic", "mirror", "constant"}
Onto(e, c, n) ==
  CASE e = "clamp"    -> IF c < 0 THEN 0 ELSE IF c >= n THEN n - 1 ELSE c
    [] e = "periodic" -> c % n
    [] e = "mirror"   -> IF n = 1 THEN 0
                         ELSE LET m == c % (2 * (n - 1)) IN IF m < n THEN m ELSE 2 * (n - 1) - m
    [] OTHER          -> c
\* the data at any integer grid location, under an edge policy
At(r, e, p) == IF e = "constant" /\ ~Inside(r, p) THEN r.abyss
               ELSE r.data[[a \in Axes(r) |-> Onto(e, p[a], r.ext[a])]]

Kinds == {"nearest", "linear", "cubic"}
\* cells along one axis that take part in a sample at k/d, and the weight of each
Base(i, k, d) == IF i = "nearest" THEN (2 * k + d) \div (2 * d) ELSE k \div d
Window(i) == CASE i = "nearest" -> 0..0 [] i = "linear" -> 0..1 [] i = "cubic" -> -1..2
Weight(i, k, d, o) ==
  LET t == k % d IN
  CASE i = "nearest" -> 1
    [] i = "linear"  -> IF o = 0 THEN d - t ELSE t
    [] i = "cubic"   -> CASE o = -1 -> 0 - t*d*d + 2*t*t*d - t*t*t
                          [] o =  0 -> 2*d*d*d - 5*t*t*d + 3*t*t*t
                          [] o =  1 -> t*d*d + 4*t*t*d - 3*t*t*t
                          [] o =  2 -> 0 - t*t*d + t*t*t
Unit1(i, d) == CASE i = "nearest" -> 1 [] i = "linear" -> d [] i = "cubic" -> 2*d*d*d
RECURSIVE Unit(_, _)
Unit(i, ds) == IF ds = <<>> THEN 1 ELSE Unit1(i, ds[1]) * Unit(i, Tail(ds))

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)

\* channel c of the sample at (ks[1]/ds[1], ...) times Unit
RECURSIVE Blend(_, _, _, _, _, _, _, _)
Blend(r, e, i, ks, ds, c, a, p) ==
  IF a = 0 THEN At(r, e, p)[c]
  ELSE LET b == Base(i, ks[a], ds[a])
       IN  SumOver(Window(i), [o \in Window(i) |->
             LET w == Weight(i, ks[a], ds[a], o)
             IN  IF w = 0 THEN 0 ELSE w * Blend(r, e, i, ks, ds, c, a - 1, [p EXCEPT ![a] = b + o])])
Sample(r, e, i, ks, ds) ==
  [c \in 1..Len(r.abyss) |-> Blend(r, e, i, ks, ds, c, Len(r.ext), [a \in Axes(r) |-> 0])]

\* x/Q in sampling space lies at grid coordinate k/d
Places(r, Q, x, k, d, a) ==
  IF r.lo[a] = r.hi[a] THEN k * Q = (x - Q * r.lo[a]) * d
  ELSE (x - Q * r.lo[a]) * (r.ext[a] - 1) * d = k * Q * (r.hi[a] - r.lo[a])

Write(r, p, v) == IF Inside(r, p) THEN [r EXCEPT !.data[p] = v] ELSE r
================================================================================
