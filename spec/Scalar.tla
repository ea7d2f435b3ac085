---------------------------------- MODULE Scalar ---------------------------------
(* Scalar functions over whole numbers and rationals: quotients and remainders,     *)
(* interpolation, quadratics, angles (in eighths of a turn), orthogonal polynomials. *)
EXTENDS Integers, Sequences

Abs1(a) == IF a < 0 THEN -a ELSE a
Sg(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
RECURSIVE Pw(_, _)
Pw(b, k) == IF k = 0 THEN 1 ELSE b * Pw(b, k - 1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

(* ---- quotients and remainders, any signs, b # 0 ---- *)
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
CeilDiv(a, b) == -FloorDiv(-a, b)
\* the representative of a modulo b between 0 and b (of the sign of b)
PosMod(a, b) == IF b > 0 THEN a % b ELSE -((-a) % (-b))
IsPow2(x) == \E k \in 0..30 : x = P2(k)

(* ---- interpolation: t = j/q ---- *)
\* q^n times the multilinear blend of the 2^n values p at j/q; axis 1 varies fastest
RECURSIVE Lerp(_, _, _)
Lerp(js, q, p) == IF js = <<>> THEN p[1]
                  ELSE LET n == Len(js) h == Len(p) \div 2 t == js[n]
                       IN  ((q - t) * Lerp(SubSeq(js, 1, n - 1), q, SubSeq(p, 1, h))) + (t * Lerp(SubSeq(js, 1, n - 1), q, SubSeq(p, h + 1, 2 * h)))
\* weights of the four values of a cubic, times 2 q^3
W(j, q) == <<(-(q * q) * j) + (2 * q * j * j) - (j * j * j),
             (2 * q * q * q) - (5 * q * j * j) + (3 * j * j * j),
             (q * q * j) + (4 * q * j * j) - (3 * j * j * j),
             (j * j * j) - (q * j * j)>>
RECURSIVE Cubic(_, _, _)
Cubic(js, q, p) == IF js = <<>> THEN p[1]
                   ELSE LET n == Len(js) h == Len(p) \div 4 w == W(js[n], q)
                        IN  Sum([i \in 1..4 |-> w[i] * Cubic(SubSeq(js, 1, n - 1), q, SubSeq(p, (i - 1) * h + 1, i * h))])

(* ---- the shorter way from angle a to angle b, in eighths of a turn ---- *)
Way(a, b) == LET d == (b - a) % 8 IN IF d < 4 THEN {d} ELSE IF d > 4 THEN {d - 8} ELSE {4, -4}

(* ---- polynomials: coefficients from the constant up ---- *)
Coef(p, i) == IF i \in 1..Len(p) THEN p[i] ELSE 0
PMul(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |-> Sum([i \in 1..Len(p) |-> p[i] * Coef(q, k - i + 1)])]
PAdd(p, q) == [k \in 1..(IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) |-> Coef(p, k) + Coef(q, k)]
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN <<1>> ELSE PMul(p, PPow(p, n - 1))
PDiff(p) == IF Len(p) <= 1 THEN <<0>> ELSE [k \in 1..(Len(p) - 1) |-> k * p[k + 1]]
RECURSIVE PDiffN(_, _)
PDiffN(p, n) == IF n = 0 THEN p ELSE PDiffN(PDiff(p), n - 1)
\* h^deg times the value at x = c/h, for deg >= degree of p
PAt(p, c, h, deg) == Sum([k \in 1..Len(p) |-> p[k] * Pw(c, k - 1) * Pw(h, deg - k + 1)])
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
\* 2^n n! P_n, by Rodrigues' formula
Legendre(n) == PDiffN(PPow(<<-1, 0, 1>>, n), n)
LegDen(n) == P2(n) * Fact(n)
\* Chebyshev polynomials by recurrence; kind 1 or 2
RECURSIVE Cheb(_, _)
Cheb(kind, n) == IF n = 0 THEN <<1>> ELSE IF n = 1 THEN <<0, kind>> ELSE PAdd(PMul(<<0, 2>>, Cheb(kind, n - 1)), PMul(<<-1>>, Cheb(kind, n - 2)))
==================================================================================
