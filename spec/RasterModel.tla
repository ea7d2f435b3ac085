------------------------------- MODULE RasterModel -------------------------------
(* Histories of writes to a raster; every sample promised of module Raster.         *)
EXTENDS Raster
CONSTANTS Exts, Vals, D

VARIABLE r
New(ext) == [ext |-> ext, lo |-> [a \in 1..Len(ext) |-> 0], hi |-> [a \in 1..Len(ext) |-> ext[a] - 1],
             data |-> [p \in Grid(ext) |-> <<0>>], abyss |-> <<0>>]
Shapes == IF Exts = 1 THEN {<<n>> : n \in 1..4} ELSE {<<n, m>> : n \in 1..2, m \in 1..3}
Init == \E ext \in Shapes : r = New(ext)
Next == \/ \E p \in Grid(r.ext), v \in Vals : r' = Write(r, p, <<v>>)
        \/ \E v \in Vals : r' = [r EXCEPT !.abyss = <<v>>]
Spec == Init /\ [][Next]_r

K == -2*D..(6*D)
Ds == [a \in Axes(r) |-> D]
Pts == IF Exts = 1 THEN {<<k>> : k \in K} ELSE {<<k, j>> : k \in -D..2*D+1, j \in -D..2*D+1}
Shift(ks, a, n) == [ks EXCEPT ![a] = @ + n]
V(e, i, ks) == Sample(r, e, i, ks, Ds)[1]

\* weights add to one
Unity == \A i \in Kinds, k \in K :
           SumOver(Window(i), [o \in Window(i) |-> Weight(i, k, D, o)]) = Unit1(i, D)
\* on a grid point, every interpolation gives the data (or the abyss)
AtGrid == \A e \in Policies, i \in Kinds, ks \in Pts :
            (\A a \in Axes(r) : ks[a] % D = 0)
            => V(e, i, ks) = Unit(i, Ds) * At(r, e, [a \in Axes(r) |-> ks[a] \div D])[1]
\* linear interpolation stays among the values
Among == \A e \in Policies, ks \in Pts :
           /\ \E p \in Grid(r.ext) \cup {[a \in Axes(r) |-> -1]} :
                 V(e, "linear", ks) <= Unit("linear", Ds) * At(r, IF \A a \in Axes(r) : p[a] = -1 THEN "constant" ELSE e, p)[1]
           /\ \E p \in Grid(r.ext) \cup {[a \in Axes(r) |-> -1]} :
                 V(e, "linear", ks) >= Unit("linear", Ds) * At(r, IF \A a \in Axes(r) : p[a] = -1 THEN "constant" ELSE e, p)[1]
\* tiling repeats, mirrors reflect, clamping holds
Edges == \A i \in {"linear", "cubic"}, ks \in Pts, a \in Axes(r) :
  LET n == r.ext[a]
  IN  /\ V("periodic", i, ks) = V("periodic", i, Shift(ks, a, n * D))
      /\ V("mirror", i, ks) = V("mirror", i, [ks EXCEPT ![a] = 0 - @])
      /\ V("mirror", i, ks) = V("mirror", i, [ks EXCEPT ![a] = 2 * (n - 1) * D - @])
      /\ (ks[a] <= -D /\ i = "linear") => V("clamp", i, ks) = V("clamp", i, Shift(ks, a, -D))
\* an empty surround
Faraway == \A i \in Kinds, ks \in Pts :
  (\E a \in Axes(r) : ks[a] < -2 * D \/ ks[a] >= (r.ext[a] + 1) * D) => V("constant", i, ks) = Unit(i, Ds) * r.abyss[1]
\* ramps are reproduced by linear and cubic interpolation, parabolas by cubic
Poly == \A ks \in Pts : Len(r.ext) = 1 =>
  LET n == r.ext[1]  k == ks[1]
      ramp == [r EXCEPT !.data = [p \in Grid(r.ext) |-> <<3 * p[1] - 2>>]]
      para == [r EXCEPT !.data = [p \in Grid(r.ext) |-> <<p[1] * p[1]>>]]
  IN  /\ (0 <= k /\ k <= (n-1) * D) => Sample(ramp, "clamp", "linear", ks, Ds)[1] = 3 * k - 2 * D
      /\ (D <= k /\ k < (n-2) * D) => /\ Sample(ramp, "clamp", "cubic", ks, Ds)[1] = 2 * D * D * (3 * k - 2 * D)
                                      /\ Sample(para, "clamp", "cubic", ks, Ds)[1] = 2 * D * k * k
=================================================================================
