-------------------------------- MODULE HarmonicsTrace ---------------------------------
(* Recorded values of the polynomials and spherical functions.                          *)
EXTENDS Harmonics, TraceKit

All(s, v) == \A j \in DOMAIN s : s[j] = v
Padded(s, n) == [j \in 1..n |-> IF j <= Len(s) THEN s[j] ELSE 0]
Alg(e) ==
  LET a == e.a n == Len(a)
  IN  CASE e.f = "neg" -> e.ret = [j \in 1..n |-> -a[j]]
        [] e.f = "mul" -> e.ret = [j \in 1..n |-> a[j] * e.k]
        [] e.f = "div" -> a = [j \in 1..n |-> e.ret[j] * e.k]
        \* the first coefficient of a constant k is k root(4 pi); both sides here without that root
        [] e.f = "bias" -> e.ret = [a EXCEPT ![1] = e.k]
        [] e.f = "adds" -> e.ret = [j \in 1..n |-> a[j] + (IF j <= Len(e.b) THEN e.b[j] ELSE 0)]
        [] e.f = "plus" -> LET m == Max2(n, Len(e.b)) IN e.ret = [j \in 1..m |-> Padded(a, m)[j] + Padded(e.b, m)[j]]
        [] e.f = "dot"  -> LET t(j) == a[j] * e.b[j] IN e.k = SumF(t, 1, Min2(n, Len(e.b)))
        \* times a[1] root(4 pi), unless that is zero
        [] e.f = "norm" -> e.ret = a
        [] e.f = "clear" -> All(e.ret, 0) /\ Len(e.ret) = n
        [] OTHER -> FALSE

MyOk(e) ==
  CASE e.op = "Leg"  -> e.ret = P(e.n, e.p, e.q) /\ e.ret2 = e.ret
    [] e.op = "LegA" -> e.ret = PA(e.n, e.m, e.p, e.s, e.q)
    [] e.op = "Int"  -> e.ret = PInt(e.n, e.p, e.q)
    [] e.op = "Cheb" -> e.ret = Cheb(e.kind, e.n, e.p, e.q)
    [] e.op = "Column" -> /\ \A j \in DOMAIN e.ret : e.ret[j] = PA(e.m + j - 1, e.m, e.p, e.s, e.q) /\ e.neg[j] = e.ret[j]
                          /\ e.rest
    [] e.op = "Y"    -> All(e.ways, Y(e.n, e.m, e.d, e.q))
    [] e.op = "Zonal" -> All(e.ways, Zonal(e.c, e.p, e.q))
    \* a zonal function turned to another axis, and seen from there
    [] e.op = "Turned" -> LET p == e.d[1] * e.e[1] + e.d[2] * e.e[2] + e.d[3] * e.e[3]
                          IN  e.ret = Zonal(e.c, p, e.q)
    [] e.op = "Back" -> e.ret = e.c
    [] e.op = "Spot" -> e.ret = [j \in 1..Len(e.ret) |-> Spot(j - 1, e.p, e.q)]
    [] e.op = "Lambert" -> e.ret = [j \in 1..Len(e.ret) |-> IF j <= e.order THEN Lambert(j - 1) ELSE 0]
    [] e.op = "ZDot" -> LET t(j) == e.a[j] * e.b[j] IN e.ret = SumF(t, 1, Min2(Len(e.a), Len(e.b)))
    [] e.op = "ZProject" -> e.ret = [j \in 1..Len(e.ret) |-> e.v * P(j - 1, e.p, e.q)]
    [] e.op = "Sizes" -> e.bands = e.n /\ e.size = e.n * e.n /\ e.zero
    [] e.op = "Blur" -> e.one /\ e.two /\ e.none /\ e.alike /\ e.lost /\ e.short
    [] e.op = "Alg"  -> Alg(e)
    [] OTHER -> FALSE
VARIABLE l
F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
===================================================================================
