-------------------------------- MODULE Harmonics ----------------------------------
(* Polynomials on [-1, 1] and harmonics on the sphere, in integers.                   *)
(* Arguments are fractions p/q; directions are (x, y, z)/q with x^2+y^2+z^2 = q^2.    *)
EXTENDS Integers, Sequences

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
\* TLC has no 0^0
Pow(b, n) == IF n = 0 THEN 1 ELSE b^n
Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumF(_, _, _)
SumF(f(_), lo, hi) == IF lo > hi THEN 0 ELSE f(lo) + SumF(f, lo + 1, hi)

\* 2^l P_l(x) has these coefficients, of x^0 .. x^l
Leg(l) == [k \in 1..(l + 1) |-> IF (l - k + 1) % 2 = 1 THEN 0
             ELSE LET j == (l - k + 1) \div 2 IN Sgn(j) * Choose(l, j) * Choose(2 * l - 2 * j, l)]
\* the derivative of a polynomial
Diff(c) == [k \in 1..(Len(c) - 1) |-> k * c[k + 1]]
RECURSIVE DiffN(_, _)
DiffN(c, m) == IF m = 0 THEN c ELSE DiffN(Diff(c), m - 1)
\* q^deg times the polynomial at p/q
RECURSIVE Horner(_, _, _, _, _)
Horner(c, p, q, k, acc) == IF k = 0 THEN acc ELSE Horner(c, p, q, k - 1, acc * p + c[k] * q^(Len(c) - k))
At(c, p, q) == Horner(c, p, q, Len(c), 0)

\* (2q)^l P_l(p/q)
P(l, p, q) == At(Leg(l), p, q)
\* (2q)^l times the associated function, phase (-1)^m included; s/q is the root of 1 - (p/q)^2
PA(l, m, p, s, q) == Sgn(m) * At(DiffN(Leg(l), m), p, q) * Pow(s, m)
\* (2n+1) (2q)^(n+1) times the integral of P_n from -1 to p/q
PInt(n, p, q) == IF n = 0 THEN 2 * (p + q)
                 ELSE P(n + 1, p, q) - 4 * q * q * P(n - 1, p, q)
\* q^n T_n(p/q) or q^n U_n(p/q)
RECURSIVE Cheb(_, _, _, _)
Cheb(kind, n, p, q) == IF n = 0 THEN 1 ELSE IF n = 1 THEN kind * p
                       ELSE 2 * p * Cheb(kind, n - 1, p, q) - q * q * Cheb(kind, n - 2, p, q)

\* powers of x + iy
RECURSIVE CPow(_, _, _)
CPow(x, y, m) == IF m = 0 THEN <<1, 0>>
                 ELSE LET r == CPow(x, y, m - 1) IN <<x * r[1] - y * r[2], x * r[2] + y * r[1]>>
\* The real harmonic of band l and sub-band m, without its root: (2q)^l times
\* Y_lm / sqrt((2l+1)/(4 pi) * (l-|m|)!/(l+|m|)! * (2 unless m = 0))
Y(l, m, d, q) == LET a == IF m < 0 THEN -m ELSE m
                     r == CPow(d[1], d[2], a)
                 IN  Sgn(a) * At(DiffN(Leg(l), a), d[3], q) * (IF m < 0 THEN r[2] ELSE r[1])

\* (2q)^(n-1) times the zonal function with coefficients c[1..n], of P_0 .. P_n-1, at p/q
Zonal(c, p, q) == LET n == Len(c) t(l) == c[l + 1] * P(l, p, q) * (2 * q)^(n - 1 - l) IN SumF(t, 0, n - 1)
\* 2 (2q)^(l+1) times coefficient l of the spot of radius arccos(p/q)
Spot(l, p, q) == IF l = 0 THEN 2 * (q - p) ELSE 4 * q * q * P(l - 1, p, q) - P(l + 1, p, q)
\* 2^(l+1) 2520 times coefficient l of max(0, x), for l up to 8: (2l+1)/2 of the integral of x P_l over [0, 1]
Lambert(l) == LET c == Leg(l) t(k) == c[k] * (2520 \div (k + 1)) IN (2 * l + 1) * SumF(t, 1, l + 1)
===================================================================================
