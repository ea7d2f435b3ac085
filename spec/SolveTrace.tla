------------------------------ MODULE SolveTrace ------------------------------
(* Judges recorded decompositions, solutions, inverses, determinants and           *)
(* orthogonal complements, exact modulo a prime; and, in fixed point, the routines *)
(* that need real numbers.                                                         *)
EXTENDS Field, TraceKit

VARIABLE l

LeadRows(a, n) == SubSeq(a, 1, n)
PluOk(e) ==
    LET r == Len(e.a) c == Len(e.a[1])
        n == MinOf(r, c)
    IN  /\ e.ret = ZeroPivots(e.lu, r, c)
        /\ (e.perm # <<>> => /\ IsPermutation(e.perm, r)
                             /\ LU(e.lu, r, c, e.p) = [i \in 1..r |-> e.a[e.perm[i] + 1]]
                             /\ e.odd = (PSign(e.perm) = -1))
        /\ (e.ret = 0) = (FRank([i \in 1..r |-> SubSeq(e.a[i], 1, n)], n, e.p) = n)
LupOk(e) ==
    LET r == Len(e.a) c == Len(e.a[1])
        n == MinOf(r, c)
    IN  /\ (e.ret = 0) = (FRank(SubSeq(e.a, 1, n), c, e.p) = n)
        /\ e.ret = 0 => /\ IsPermutation(e.perm, c)
                        /\ e.odd = (PSign(e.perm) = -1)
                        /\ LU(e.lu, r, c, e.p) = [i \in 1..r |-> [j \in 1..c |-> e.a[i][e.perm[j] + 1]]]
                        /\ ZeroPivots(e.lu, r, c) = 0
SolveOk(e) ==
    LET n == Len(e.a)
        sing == FDet(e.a, e.p) = 0
    IN  /\ e.ok = ~sing
        /\ ~sing => LET ax == FMul(e.a, e.want, e.p) IN
             /\ ax = e.b
             /\ \A i \in (e.skip + 1)..n : e.x[i] = e.want[i]
InvOk(e) ==
    LET n == Len(e.a)
        sing == FDet(e.a, e.p) = 0
    IN  /\ e.ok = ~sing
        /\ ~sing => FMul(e.a, e.x, e.p) = Ident(n, n) /\ IsMat(e.x, n, n)
        /\ sing /\ e.keeps => e.x = e.before
DetOk(e) == e.det = FDet(e.a, e.p)
NullOk(e) ==
    LET n == Len(e.a) c == e.n
        dep == FRank(e.a, c, e.p) < n
    IN  /\ Len(e.x) = c - n
        /\ e.ok = ~dep
        /\ IF dep THEN \A i \in 1..(c - n) : e.x[i] = VZero(c)
                  ELSE /\ \A i \in 1..n, j \in 1..(c - n) : Dot(e.a[i], e.x[j]) % e.p = 0
                       /\ FRank(e.x, c, e.p) = c - n

(* ---- real numbers ---- *)
(* partial pivoting: no multiplier exceeds one; lu is scaled by e.s *)
PivotOk(e) ==
    LET r == Len(e.a) c == Len(e.a[1])
        n == MinOf(r, c)
        tol == n * e.s * 60
    IN  /\ \A i \in 1..r, j \in 1..c : j < i => Abs(e.lu[i][j]) <= e.s
        /\ \A i \in 1..r, j \in 1..c :
             Abs(SumTo([k \in 1..n |-> IF k = i THEN e.s * UPart(e.lu, k, j) ELSE LPart(e.lu, i, k) * UPart(e.lu, k, j)], n)
                 - e.s * e.s * e.a[e.perm[i] + 1][j]) <= tol
CholOk(e) == /\ e.ok = e.pd
             /\ e.pd => e.m = e.l0
(* orthonormal, first direction kept, and every given vector inside the span of those up to it *)
OrthoOk(e) ==
    LET n == Len(e.b)
        ss == e.s * e.s
    IN  /\ \A i, j \in 1..n : Abs(Dot(e.o[i], e.o[j]) - (IF i = j THEN ss ELSE 0)) <= e.s * 8
        /\ \A i \in 1..n : Abs(SumTo([j \in 1..i |-> Dot(e.b[i], e.o[j]) * Dot(e.b[i], e.o[j])], i) - ss * Mag2(e.b[i])) <= e.s * 60 * (1 + Mag2(e.b[i]))
        /\ Dot(e.b[1], e.o[1]) > 0
(* mutually orthogonal, the first unchanged, none vanishes *)
GramOk(e) ==
    LET n == Len(e.b)
    IN  /\ e.o[1] = VScale(e.s, e.b[1])
        /\ \A i, j \in 1..n : i < j => Abs(Dot(e.o[i], e.o[j])) <= e.s * 150
        /\ \A i \in 1..n : Mag2(e.o[i]) > 0
(* y is x projected to the span of b: the rest is orthogonal to it, and y lies in it *)
ProjOk(e) ==
    LET n == Len(e.b)
    IN  /\ \A i \in 1..n : Abs(Dot(VSub(VScale(e.s, e.x), e.y), e.b[i])) <= 100
        /\ \A i \in 1..Len(e.perp) : Abs(Dot(e.y, e.perp[i])) <= 400

MyOk(e) ==
    CASE e.op = "plu" -> PluOk(e)
      [] e.op = "lup" -> LupOk(e)
      [] e.op = "solve" -> SolveOk(e)
      [] e.op = "inv" -> InvOk(e)
      [] e.op = "det" -> DetOk(e)
      [] e.op = "null" -> NullOk(e)
      [] e.op = "pivot" -> PivotOk(e)
      [] e.op = "chol" -> CholOk(e)
      [] e.op = "ortho" -> OrthoOk(e)
      [] e.op = "gram" -> GramOk(e)
      [] e.op = "proj" -> ProjOk(e)

F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
================================================================================
