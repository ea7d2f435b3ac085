-------------------------------- MODULE DualModel --------------------------------
(* Programs over registers, run on rational functions of t and, beside them, on dual *)
(* numbers started from <<t0, 1>>: every register's dual is the value and derivative *)
(* of its function at t0.  Polynomials are sequences of coefficients modulo P.       *)
EXTENDS Dual, FiniteSets
CONSTANTS P, Steps
VARIABLES t0, f, v, k                \* f: registers [n, d]; v: their duals
vars == <<t0, f, v, k>>
Z == 0..(P - 1)
Regs == {1, 2}

Coef(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
PAdd(a, b) == [i \in 1..MaxLen(a, b) |-> (Coef(a, i) + Coef(b, i)) % P]
PScale(c, a) == [i \in DOMAIN a |-> (c * a[i]) % P]
RECURSIVE SumTo(_, _)
SumTo(g, n) == IF n = 0 THEN 0 ELSE SumTo(g, n - 1) + g[n]
PMul(a, b) == [i \in 1..(Len(a) + Len(b) - 1) |-> SumTo([j \in 1..i |-> Coef(a, j) * Coef(b, i + 1 - j)], i) % P]
PDiff(a) == IF Len(a) = 1 THEN <<0>> ELSE [i \in 1..(Len(a) - 1) |-> (i * a[i + 1]) % P]
RECURSIVE PAt(_, _)
PAt(a, x) == IF Len(a) = 0 THEN 0 ELSE (a[1] + (x * PAt(Tail(a), x))) % P

\* fraction of polynomials
FAdd(a, b) == [n |-> PAdd(PMul(a.n, b.d), PMul(b.n, a.d)), d |-> PMul(a.d, b.d)]
FMul(a, b) == [n |-> PMul(a.n, b.n), d |-> PMul(a.d, b.d)]
FDiv(a, b) == [n |-> PMul(a.n, b.d), d |-> PMul(a.d, b.n)]
FNeg(a) == [n |-> PScale(P - 1, a.n), d |-> a.d]
FConst(c) == [n |-> <<c>>, d |-> <<1>>]
FVal(a, x) == (PAt(a.n, x) * Inv(PAt(a.d, x), P)) % P
FSlope(a, x) == LET d == PAt(a.d, x) IN
  (((PAt(PDiff(a.n), x) * d) - (PAt(a.n, x) * PAt(PDiff(a.d), x))) * Inv((d * d) % P, P)) % P

Init == t0 \in Z /\ \E c \in {2, P - 1} : f = <<[n |-> <<0, 1>>, d |-> <<1>>], FConst(c)>> /\ v = <<<<t0, 1>>, DConst(c)>> /\ k = 0
Put(i, g, d) == f' = [f EXCEPT ![i] = g] /\ v' = [v EXCEPT ![i] = DMod(d, P)]
Next == /\ k < Steps /\ k' = k + 1 /\ UNCHANGED t0
        /\ \E i, a, b \in Regs :
             \/ Put(i, FAdd(f[a], f[b]), DAdd(v[a], v[b]))
             \/ Put(i, FAdd(f[a], FNeg(f[b])), DSub(v[a], v[b]))
             \/ Put(i, FMul(f[a], f[b]), DMul(v[a], v[b]))
             \/ v[b][1] # 0 /\ Put(i, FDiv(f[a], f[b]), DDiv(v[a], v[b], P))
             \/ Put(i, FNeg(f[a]), DNeg(v[a]))
             \/ \E c \in {2, 3} : Put(i, FAdd(FConst(c), FNeg(f[a])), DSub(DConst(c), v[a]))
Spec == Init /\ [][Next]_vars
IsDerivative == \A i \in Regs : v[i] = <<FVal(f[i], t0), FSlope(f[i], t0)>>

\* max, min and abs of straight lines meeting at 0: slopes to either side
Corners == \A a, b \in -3..3 :
  LET Mx(t) == Max2(a * t, b * t) Mn(t) == Min2(a * t, b * t) Ab(t) == Max2(a * t, -(a * t)) IN
  /\ Resolve("Left", Mx(0) - Mx(-1), Mx(1) - Mx(0)) = MaxAt("Left", a, b)
  /\ Resolve("Right", Mx(0) - Mx(-1), Mx(1) - Mx(0)) = MaxAt("Right", a, b)
  /\ Resolve("Left", Mn(0) - Mn(-1), Mn(1) - Mn(0)) = MinAt("Left", a, b)
  /\ Resolve("Average", Mn(0) - Mn(-1), Mn(1) - Mn(0)) = MinAt("Average", a, b)
  /\ Resolve("Left", Ab(0) - Ab(-1), Ab(1) - Ab(0)) \subseteq AbsAt("Left", a)
  /\ Resolve("Inf", Ab(0) - Ab(-1), Ab(1) - Ab(0)) \subseteq AbsAt("Inf", a)
\* second derivatives are derivatives of derivatives: t^3 and its like, by nesting
Nested == \A x, y \in Z : LET e == <<x, 1, 1, 0>> c == EMod(EMul(e, EMul(e, e)), P) IN
            /\ c = EMod(<<x * x * x, 3 * x * x, 3 * x * x, 6 * x>>, P)
            /\ EMod(EMul(ELift(<<y, 1>>), e), P) = EMod(<<y * x, y + x, y, 1>>, P)
==================================================================================
