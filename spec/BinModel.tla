-------------------------------- MODULE BinModel ----------------------------------
(* The search of a region: a cursor which goes through the items of one bin, then on *)
(* to the next bin of the block that is not empty, carrying from axis to axis.       *)
EXTENDS BinGrid
CONSTANTS N, Reach, CS, MaxItems

VARIABLES items, lo, hi, bin, left, out, done
vars == <<items, lo, hi, bin, left, out, done>>
Pts == [1..N -> -Reach..Reach]
Items == Pts \X {1}
OfBin(b) == {it \in items : Bin(CS, it[1]) = b}
BLo == Bin(CS, lo)
BHi == [a \in 1..N |-> Bin(CS, hi)[a] + 1]      \* one beyond

Small == UNION {{x \cup y : x \in {{a}, {}}, y \in {{b}, {}}} : a \in Pts \X {1}, b \in Pts \X {2}}
Init == /\ items \in Small
        /\ lo \in Pts /\ hi \in Pts /\ \A a \in 1..N : lo[a] <= hi[a]
        /\ bin = BLo /\ left = OfBin(BLo) /\ out = {} /\ done = FALSE

\* the bin after b in the block, or b itself when there is none
RECURSIVE Succ(_, _)
Succ(b, a) == IF a > N THEN <<>>
              ELSE IF b[a] + 1 >= BHi[a] THEN Succ([b EXCEPT ![a] = BLo[a]], a + 1)
              ELSE [b EXCEPT ![a] = @ + 1]
Take == /\ left # {} /\ \E it \in left : left' = left \ {it} /\ out' = out \cup {it} /\ it \notin out
        /\ UNCHANGED <<items, lo, hi, bin, done>>
Move == /\ left = {} /\ ~done
        /\ LET b == Succ(bin, 1)
           IN  IF b = <<>> THEN done' = TRUE /\ UNCHANGED <<bin, left>>
               ELSE bin' = b /\ left' = OfBin(b) /\ done' = FALSE
        /\ UNCHANGED <<items, lo, hi, out>>
Next == Take \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finds == done => out = Query(items, CS, lo, hi)
NoneMissed == InRegion(items, lo, hi) \subseteq Query(items, CS, lo, hi)
\* nothing further away than a cell
Near == \A it \in Query(items, CS, lo, hi) : \A a \in 1..N : lo[a] - CS < it[1][a] /\ it[1][a] < hi[a] + CS
Ends == <>done
===================================================================================
