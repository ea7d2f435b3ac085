------------------------------- MODULE SimplexModel -------------------------------
(* The search for the face of a simplex to which a point projects, as the library   *)
(* makes it: starting at the whole simplex, faces are visited in some order; a face *)
(* leads to those of its facets that the point lies in front of, and is a candidate *)
(* if there are none.  For the projection to the surface, facets of a full simplex  *)
(* are candidates from behind, too, yielding to any candidate from in front.        *)
(* Whatever the order of the visits, the candidate kept is the nearest.             *)
EXTENDS Facet
CONSTANTS N, K,                \* dimension, vertices,
          L, R, X,             \* their range -L..R, the point's range -X..X
          Free                  \* visits in any order

VARIABLES p, x, op, todo, best, inside
vars == <<p, x, op, todo, best, inside>>

Grid == [1..N -> -L..R]
Tuple(f) == TLCEval([i \in 1..N |-> f[i]])
None == [S |-> {}, num |-> 0, den |-> 1, back |-> FALSE]

Init == /\ \E v \in [1..(K - 1) -> Grid] : p = TLCEval([i \in 1..K |-> IF i = 1 THEN VZero(N) ELSE Tuple(v[i - 1])])
        /\ (K > 1 => Spread(p) # 0)
        /\ \E v \in [1..N -> -X..X] : x = Tuple(v)
        /\ op \in {"clip", "project"}
        /\ todo = {[S |-> 1..K, back |-> FALSE]}
        /\ best = None
        /\ inside = FALSE

Update(num, den, S, back) ==
    best' = IF \/ best.S = {}
               \/ (Less(num, den, best.num, best.den) /\ (back => best.back))
               \/ (~back /\ best.back)
            THEN [S |-> S, num |-> num, den |-> den, back |-> back] ELSE best
Foot(S, back) == LET f == Sub(p, S) IN Update(Gap(f, x, 1), IF Len(f) = 1 THEN 1 ELSE Spread(f), S, back)

Visit(t) ==
    LET f == Sub(p, t.S)
        s == Sorted(t.S)
        w == Weights(f, x, 1)[1]
        full == Cardinality(t.S) = N + 1
        Behind(i) == w[i] > 0              \* the point is behind the facet opposite s[i]
        allin == \A i \in 1..Len(f) : Behind(i)
    IN  IF t.back THEN Foot(t.S, TRUE) /\ todo' = todo \ {t} /\ UNCHANGED inside
        ELSE /\ todo' = (todo \ {t}) \cup
                   (IF Len(f) = 1 THEN {} ELSE
                    {[S |-> t.S \ {s[i]}, back |-> Behind(i)] : i \in {j \in 1..Len(f) : ~Behind(j) \/ (op = "project" /\ full)}})
             /\ IF Len(f) = 1 \/ (allin /\ ~full) THEN Foot(t.S, FALSE) /\ UNCHANGED inside
                ELSE IF allin THEN /\ inside' = TRUE
                                   /\ IF op = "clip" THEN Update(0, 1, t.S, TRUE) ELSE UNCHANGED best
                ELSE UNCHANGED <<best, inside>>

Next == \E t \in (IF Free \/ todo = {} THEN todo ELSE {CHOOSE u \in todo : TRUE}) : Visit(t) /\ UNCHANGED <<p, x, op>>
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- what it must find *)
Strictly == K = N + 1 /\ LET d == Sgn(Det(Edges(p))) IN \A i \in 1..K : Sgn(Bary(p, x, 1, i)) * d > 0
W == Weights(Sub(p, best.S), x, 1)
H == FootOf(Sub(p, best.S), W[1])
OnFace == \A i \in DOMAIN W[1] : W[1][i] >= 0
\* no vertex lies beyond the foot, towards the point
Nearest == \A v \in 1..K : Dot(VSub(VScale(W[2], x), H), VSub(VScale(W[2], p[v]), H)) <= 0
Facets == {(1..K) \ {i} : i \in 1..K}
Found ==
    todo = {} =>
      /\ inside = Strictly
      /\ best.S # {}
      /\ IF ~Strictly THEN OnFace /\ Nearest /\ best.num * Spread(Sub(p, best.S)) = best.den * Gap(Sub(p, best.S), x, 1)
         ELSE IF op = "clip" THEN best.S = 1..K /\ best.num = 0
         ELSE /\ best.S \in Facets /\ OnFace
              /\ \A F \in Facets : LET f == Sub(p, F) IN ~Less(Gap(f, x, 1), Spread(f), best.num, best.den)
==================================================================================
