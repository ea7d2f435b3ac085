-------------------------------- MODULE BinGrid ----------------------------------
(* A spatial partition: a bag of items at points of space, kept in square bins, and  *)
(* queried by region.  Positions and the cell size are in the same integer units.    *)
(* An item is <<position, name>>; names tell apart items at the same place.          *)
EXTENDS Integers, Sequences, FiniteSets

Bin(cs, p) == [a \in 1..Len(p) |-> p[a] \div cs]
Within(lo, hi, p) == \A a \in 1..Len(p) : lo[a] <= p[a] /\ p[a] <= hi[a]
\* everything in the bins touched by the region from lo to hi, boundary included
Query(items, cs, lo, hi) == {it \in items : Within(Bin(cs, lo), Bin(cs, hi), Bin(cs, it[1]))}
InRegion(items, lo, hi) == {it \in items : Within(lo, hi, it[1])}
Add(items, p, x) == items \cup {<<p, x>>}
Drop(items, it) == items \ {it}
Rename(items, it, x) == (items \ {it}) \cup {<<it[1], x>>}
===================================================================================
