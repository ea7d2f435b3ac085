-------------------------------- MODULE LinAlg --------------------------------
(* Vectors and matrices of integers, as sequences and sequences of rows.          *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProdTo(f, n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a < b THEN b ELSE a
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

(* ---- vectors ---- *)
Dot(u, v) == SumTo([i \in 1..Len(u) |-> u[i] * v[i]], Len(u))
VAdd(u, v) == [i \in 1..Len(u) |-> u[i] + v[i]]
VSub(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
VScale(k, u) == [i \in 1..Len(u) |-> k * u[i]]
VZero(n) == [i \in 1..n |-> 0]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Mag2(u) == Dot(u, u)

(* ---- matrices of r rows and c columns ---- *)
Mat(r, c, F(_, _)) == [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]
NRows(a) == Len(a)
NCols(a) == Len(a[1])
Ident(r, c) == Mat(r, c, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Transp(a) == Mat(NCols(a), NRows(a), LAMBDA i, j : a[j][i])
MAdd(a, b) == Mat(NRows(a), NCols(a), LAMBDA i, j : a[i][j] + b[i][j])
MSub(a, b) == Mat(NRows(a), NCols(a), LAMBDA i, j : a[i][j] - b[i][j])
MScale(k, a) == Mat(NRows(a), NCols(a), LAMBDA i, j : k * a[i][j])
MMul(a, b) == Mat(NRows(a), NCols(b), LAMBDA i, j : SumTo([k \in 1..NRows(b) |-> a[i][k] * b[k][j]], NRows(b)))
MVec(a, v) == [i \in 1..NRows(a) |-> Dot(a[i], v)]
IsMat(a, r, c) == Len(a) = r /\ \A i \in 1..r : Len(a[i]) = c
ColMat(v) == [i \in 1..Len(v) |-> <<v[i]>>]

(* the determinant, by expansion along the first row *)
Minor(a, j) == [i \in 1..(Len(a) - 1) |-> [k \in 1..(Len(a) - 1) |-> a[i + 1][IF k < j THEN k ELSE k + 1]]]
Det3(x, y, z) == x[1] * (y[2] * z[3] - y[3] * z[2]) - x[2] * (y[1] * z[3] - y[3] * z[1]) + x[3] * (y[1] * z[2] - y[2] * z[1])
RECURSIVE Det(_)
Det(a) == IF Len(a) = 0 THEN 1
          ELSE IF Len(a) = 1 THEN a[1][1]
          ELSE IF Len(a) = 2 THEN a[1][1] * a[2][2] - a[1][2] * a[2][1]
          ELSE IF Len(a) = 3 THEN Det3(a[1], a[2], a[3])
          ELSE SumTo([j \in 1..Len(a) |-> IF a[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * a[1][j] * Det(Minor(a, j))], Len(a))

(* sign of a permutation of 0..n-1, given as a sequence *)
Inversions(p) == Cardinality({x \in (1..Len(p)) \X (1..Len(p)) : x[1] < x[2] /\ p[x[1]] > p[x[2]]})
PSign(p) == IF Inversions(p) % 2 = 0 THEN 1 ELSE -1
IsPermutation(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 0..(n - 1)

(* all entries within tol *)
NearV(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Abs(u[i] - v[i]) <= tol
NearM(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearV(a[i], b[i], tol)
================================================================================
