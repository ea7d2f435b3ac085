---------------------------------- MODULE Elim ---------------------------------
(* Gaussian elimination in place with row (PLU) or column (LUP) exchanges, over    *)
(* the integers mod P, for every choice of nonzero pivots.  The factorisations,    *)
(* the determinant, the solution of A x = b, and the nullspace of the rows are     *)
(* read off the result, as LUDecomp.h, MatrixDet.h and Orthogonal.h do.            *)
EXTENDS Field, TLC

CONSTANTS P, R, C, Kind        (* Kind: "plu" or "lup" *)
VARIABLES a, m, perm, odd, step, degenerate
vars == <<a, m, perm, odd, step, degenerate>>

Elems == 0..(P - 1)
N == MinOf(R, C)
Init == /\ a \in [1..R -> [1..C -> Elems]] /\ m = a
        /\ perm = [i \in 1..(IF Kind = "plu" THEN R ELSE C) |-> i - 1]
        /\ odd = FALSE /\ step = 1 /\ degenerate = 0

SwapSeq(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Exchange(x, i, j) == IF Kind = "plu" THEN SwapSeq(x, i, j) ELSE [r \in 1..R |-> SwapSeq(x[r], i, j)]
Candidate(k) == IF Kind = "plu" THEN m[k][step] ELSE m[step][k]
Range == step..(IF Kind = "plu" THEN R ELSE C)

Eliminate(x, i) ==
    LET q == FInv(x[i][i], P)
    IN  [r \in 1..R |-> IF r <= i THEN x[r] ELSE
          LET b == (x[r][i] * q) % P
          IN  [c \in 1..C |-> IF c < i THEN x[r][c] ELSE IF c = i THEN b ELSE (x[r][c] - b * x[i][c]) % P]]

Step == /\ step <= N
        /\ step' = step + 1
        /\ IF \A k \in Range : Candidate(k) = 0
           THEN degenerate' = degenerate + 1 /\ UNCHANGED <<m, perm, odd>>
           ELSE \E k \in Range :
                  /\ Candidate(k) # 0
                  /\ m' = Eliminate(Exchange(m, step, k), step)
                  /\ perm' = SwapSeq(perm, step, k)
                  /\ odd' = IF k = step THEN odd ELSE ~odd
                  /\ UNCHANGED degenerate
        /\ UNCHANGED a
Next == Step
Spec == Init /\ [][Next]_vars

Done == step > N
Permuted == IF Kind = "plu" THEN Mat(R, C, LAMBDA i, j : a[perm[i] + 1][j]) ELSE Mat(R, C, LAMBDA i, j : a[i][perm[j] + 1])
Factors == Done /\ (Kind = "plu" \/ degenerate = 0) => LU(m, R, C, P) = Permuted
ParityOK == (PSign(perm) = -1) = odd
(* row exchanges find a full set of pivots iff the leading columns are independent; column exchanges iff the leading rows are *)
Complete == Done => (degenerate = 0) =
    (FRank(IF Kind = "plu" THEN [i \in 1..R |-> SubSeq(a[i], 1, N)] ELSE SubSeq(a, 1, N), IF Kind = "plu" THEN N ELSE C, P) = N)
DetOK == Done /\ R = C => FDet(a, P) = IF degenerate > 0 THEN 0 ELSE ((IF odd THEN P - 1 ELSE 1) * (ProdTo([i \in 1..R |-> m[i][i]], R) % P)) % P

(* for fewer rows than columns: x is orthogonal to every row *)
RECURSIVE Back(_, _, _)
Back(x, r, f) == IF r = 0 THEN x
                 ELSE LET s == (0 - m[r][f] - SumTo([k \in 1..R |-> IF k > r THEN m[r][k] * x[k] ELSE 0], R)) % P
                      IN  Back([x EXCEPT ![r] = (s * FInv(m[r][r], P)) % P], r - 1, f)
NullVec(f) == LET y == Back([k \in 1..C |-> IF k = f THEN 1 ELSE 0], R, f)
              IN  [j \in 1..C |-> y[CHOOSE k \in 1..C : perm[k] = j - 1]]
NullOK == Done /\ Kind = "lup" /\ R < C /\ degenerate = 0 =>
    \A f \in (R + 1)..C : \A i \in 1..R : Dot(a[i], NullVec(f)) % P = 0
================================================================================
