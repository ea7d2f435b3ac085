--------------------------------- MODULE Field ---------------------------------
(* Linear algebra over the integers modulo a prime p (elements 0..p-1).            *)
EXTENDS LinAlg

FInv(x, p) == CHOOSE y \in 1..(p - 1) : (x * y) % p = 1
FMod(a, p) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> a[i][j] % p]]
FMul(a, b, p) == FMod(MMul(a, b), p)
RECURSIVE FDet(_, _)
FDet(a, p) == IF Len(a) = 0 THEN 1 % p
          ELSE IF Len(a) = 1 THEN a[1][1] % p
          ELSE SumTo([j \in 1..Len(a) |-> IF a[1][j] = 0 THEN 0 ELSE ((IF j % 2 = 1 THEN 1 ELSE p - 1) * a[1][j] * FDet(Minor(a, j), p)) % p], Len(a)) % p

(* the rank, by elimination on some pivot; the rows of a have length c *)
RECURSIVE FRank(_, _, _)
FRank(a, c, p) ==
    IF c = 0 \/ Len(a) = 0 THEN 0
    ELSE LET nz == {i \in 1..Len(a) : a[i][1] # 0}
         IN  IF nz = {} THEN FRank([i \in 1..Len(a) |-> Tail(a[i])], c - 1, p)
             ELSE LET k == CHOOSE i \in nz : \A j \in nz : i <= j
                      q == FInv(a[k][1], p)
                      Row(i) == [j \in 1..(c - 1) |-> (a[i][j + 1] - a[i][1] * q * a[k][j + 1]) % p]
                  IN  1 + FRank([i \in 1..(Len(a) - 1) |-> Row(IF i < k THEN i ELSE i + 1)], c - 1, p)

(* the factors held in place in an r by c matrix: L below the diagonal, U on and above *)
LPart(lu, i, k) == IF i = k THEN 1 ELSE IF k < i THEN lu[i][k] ELSE 0
UPart(lu, k, j) == IF k <= j THEN lu[k][j] ELSE 0
LU(lu, r, c, p) == LET m == MinOf(r, c) IN
    Mat(r, c, LAMBDA i, j : SumTo([k \in 1..m |-> LPart(lu, i, k) * UPart(lu, k, j)], m) % p)
ZeroPivots(lu, r, c) == Cardinality({k \in 1..MinOf(r, c) : lu[k][k] = 0})
================================================================================
