------------------------------- MODULE RasterTrace -------------------------------
(* Recorded histories of rasters against module Raster.                             *)
EXTENDS Raster, TraceKit
VARIABLES r, l
rvars == <<r, l>>
E == Trace[l + 1]
Q == 64

Zero(n) == [c \in 1..n |-> 0]
Same == UNCHANGED r
\* the box from lo to hi, listed first dimension consecutive
RECURSIVE Box(_, _)
Box(lo, hi) == IF lo = <<>> THEN << <<>> >>
               ELSE LET w == hi[1] - lo[1] + 1
                        rest == Box(Tail(lo), Tail(hi))
                    IN  [j \in 1..w * Len(rest) |-> <<lo[1] + ((j - 1) % w)>> \o rest[((j - 1) \div w) + 1]]

Act ==
  CASE E.op = "New" ->
         /\ r' = TLCEval([ext |-> E.ext, lo |-> E.lo, hi |-> E.hi, abyss |-> Zero(E.n),
                  data |-> [p \in Grid(E.ext) |-> IF E.filled THEN SubSeq(E.data, E.n * Ordinal(E.ext, p) + 1, E.n * (Ordinal(E.ext, p) + 1))
                                                  ELSE Zero(E.n)]])
         /\ E.gext = E.ext /\ E.glo = E.lo /\ E.ghi = E.hi
         /\ E.count = Volume(E.ext) /\ E.m = Len(E.ext) /\ E.nn = E.n
    [] E.op = "Set"      -> r' = Write(r, E.at, E.v)
    [] E.op = "Abyss"    -> r' = [r EXCEPT !.abyss = E.v]
    [] E.op = "Contains" -> Same /\ E.ret = Inside(r, E.at)
    [] E.op = "Discrete" -> Same /\ E.ret = At(r, E.edge, E.at)
    [] E.op = "Copy"     -> /\ Same
                            /\ LET b == Box(E.lo, E.hi)
                               IN  E.ret = [j \in 1..Len(b) |-> At(r, E.edge, b[j])] \o << [c \in 1..Len(r.abyss) |-> 77] >>
    [] E.op = "Sample"   -> /\ Same
                            /\ \A a \in Axes(r) : Places(r, Q, E.x[a], E.k[a], E.d[a], a)
                            /\ E.ret = Sample(r, E.edge, E.interp, E.k, E.d)
    [] OTHER -> FALSE
StepOK == "nan" \notin DOMAIN E /\ Act

EpStart(i) == Trace[i].op = "Reset"
Blank == [ext |-> <<1>>, lo |-> <<0>>, hi |-> <<0>>, abyss |-> <<0>>, data |-> (<<0>> :> <<0>>)]
TraceInit == \E i \in 1..NT : EpStart(i) /\ l = i /\ r = Blank
More == l > 0 /\ l < NT /\ ~EpStart(l + 1)
TraceNext ==
  \/ More /\ StepOK /\ l' = l + 1
  \/ /\ More
     /\ ~ENABLED (StepOK /\ l' = l + 1)
     /\ Bad(l + 1)
     /\ l' = -l - 1 /\ UNCHANGED r
TraceSpec == TraceInit /\ [][TraceNext]_rvars
==================================================================================
