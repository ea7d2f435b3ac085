-------------------------------- MODULE BinTrace ----------------------------------
(* Recorded histories of spatial partitions against module BinGrid.                  *)
EXTENDS BinGrid, TraceKit
VARIABLES items, cs, l
bvars == <<items, cs, l>>
E == Trace[l + 1]
Same == UNCHANGED <<items, cs>>
SetOf(s) == {s[j] : j \in DOMAIN s}
Listed(s, S) == Len(s) = Cardinality(S) /\ SetOf(s) = S

Act ==
  CASE E.op = "New"    -> items' = {} /\ cs' = E.cs
    [] E.op = "Insert" -> items' = Add(items, E.p, E.x) /\ UNCHANGED cs
    [] E.op = "Erase"  -> E.it \in items /\ items' = Drop(items, E.it) /\ UNCHANGED cs
    [] E.op = "Rename" -> E.it \in items /\ items' = Rename(items, E.it, E.x) /\ UNCHANGED cs
    [] E.op = "Clear"  -> items' = {} /\ UNCHANGED cs
    [] E.op = "Size"   -> Same /\ E.ret = Cardinality(items)
    [] E.op = "All"    -> Same /\ Listed(E.ret, items)
    [] E.op = "BinOf"  -> Same /\ E.ret = Bin(cs, E.p)
    [] E.op = "Query"  -> /\ Same
                          /\ Listed(E.ret, Query(items, cs, E.lo, E.hi))
                          /\ E.bins = [j \in 1..Len(E.ret) |-> Bin(cs, E.ret[j][1])]
                          \* the block searched holds what was found, and reaches no further than one bin past the region
                          /\ \A j \in DOMAIN E.bins, i \in DOMAIN E.lo : E.blk[1][i] <= E.bins[j][i] /\ E.bins[j][i] < E.blk[2][i]
                          /\ \A i \in DOMAIN E.lo : Bin(cs, E.lo)[i] = E.blk[1][i] /\ Bin(cs, E.hi)[i] + 1 = E.blk[2][i]
                          /\ E.ends /\ E.again
    [] OTHER -> FALSE
StepOK == "nan" \notin DOMAIN E /\ Act

EpStart(i) == Trace[i].op = "Reset"
TraceInit == \E i \in 1..NT : EpStart(i) /\ l = i /\ items = {} /\ cs = 1
More == l > 0 /\ l < NT /\ ~EpStart(l + 1)
TraceNext ==
  \/ More /\ StepOK /\ l' = l + 1
  \/ /\ More
     /\ ~ENABLED (StepOK /\ l' = l + 1)
     /\ Bad(l + 1)
     /\ l' = -l - 1 /\ UNCHANGED <<items, cs>>
TraceSpec == TraceInit /\ [][TraceNext]_bvars
===================================================================================
