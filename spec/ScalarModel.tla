------------------------------- MODULE ScalarModel -------------------------------
(* Quotients and remainders as a machine computes them (truncating division), the   *)
(* bit trick for powers of two, the nearest image of an angle, interpolation and the *)
(* polynomial recurrences: each agrees with its definition, for all small arguments. *)
EXTENDS Scalar
CONSTANTS N
VARIABLES a, b
vars == <<a, b>>
Init == a \in (-N)..N /\ b \in (-N)..N
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* C's / and %
Quo == Sg(a) * Sg(b) * (Abs1(a) \div Abs1(b))
Rem == a - b * Quo
FloorMachine == IF Rem # 0 /\ (Rem > 0) # (b > 0) THEN Quo - 1 ELSE Quo
CeilMachine == IF Rem # 0 /\ (Rem > 0) = (b > 0) THEN Quo + 1 ELSE Quo
ModMachine == IF Rem # 0 /\ (Rem < 0) # (b < 0) THEN Rem + b ELSE Rem
Divides == b # 0 =>
  /\ FloorMachine = FloorDiv(a, b) /\ CeilMachine = CeilDiv(a, b) /\ ModMachine = PosMod(a, b)
  /\ a = b * FloorDiv(a, b) + PosMod(a, b)
  /\ Abs1(PosMod(a, b)) < Abs1(b) /\ (PosMod(a, b) = 0 \/ Sg(PosMod(a, b)) = Sg(b))
  /\ CeilDiv(a, b) - FloorDiv(a, b) = (IF PosMod(a, b) = 0 THEN 0 ELSE 1)
  /\ b > 0 => LET s == b * CeilDiv(a, b) IN s >= a /\ s - a < b
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE (x % 2) + Bits(x \div 2)
RECURSIVE AndB(_, _)
AndB(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE ((x % 2) * (y % 2)) + (2 * AndB(x \div 2, y \div 2))
Powers == a > 0 => (IsPow2(a) <=> Bits(a) = 1) /\ (IsPow2(a) <=> AndB(a, a - 1) = 0)
\* the nearest of three images
Images == LET x == a % 8 y == b % 8 c == {y - x, (y - x) - 8, (y - x) + 8}
          IN  Way(a, b) = {d \in c : \A e \in c : Abs1(d) <= Abs1(e)}
\* the blends pass through the values, reproduce what they should, and have weights adding to one
Blends == LET q == 4 t == a % 5 p == <<b, a, 3, -b>> IN
  /\ Lerp(<<0, 0>>, q, p) = 16 * p[1] /\ Lerp(<<q, 0>>, q, p) = 16 * p[2] /\ Lerp(<<0, q>>, q, p) = 16 * p[3] /\ Lerp(<<q, q>>, q, p) = 16 * p[4]
  /\ Lerp(<<t, 2>>, q, p) = Lerp(<<2, t>>, q, <<p[1], p[3], p[2], p[4]>>)
  /\ Lerp(<<t>>, q, <<b, b>>) = q * b
  /\ Sum(W(t, q)) = 2 * q * q * q
  /\ W(0, q) = <<0, 128, 0, 0>> /\ W(q, q) = <<0, 0, 128, 0>>
  \* quadratics are reproduced: values at -1, 0, 1, 2
  /\ LET f(x) == (a * x * x) + (b * x) + 3 IN Cubic(<<t>>, q, <<f(-1), f(0), f(1), f(2)>>) * 1 = 8 * ((a * t * t) + (b * t * q) + (3 * q * q))
\* Legendre polynomials: Rodrigues' formula against the recurrence; Chebyshev against angles
Polys == a = 0 /\ b \in 0..5 =>
  LET n == b IN
  /\ Legendre(n) # <<>> /\ Sum(Legendre(n)) = LegDen(n)          \* P_n(1) = 1
  /\ n >= 1 /\ n <= 4 => \A k \in 1..(n + 2) :                           \* (n+1) P_{n+1} = (2n+1) x P_n - n P_{n-1}
        Coef(Legendre(n + 1), k) = (2 * ((2 * n) + 1) * Coef(Legendre(n), k - 1)) - (4 * n * n * Coef(Legendre(n - 1), k))
  /\ LET C[m \in 0..6] == IF m = 0 THEN <<1, 0>> ELSE LET p == C[m - 1] IN <<(3 * p[1]) - (4 * p[2]), (4 * p[1]) + (3 * p[2])>>
     IN  PAt(Cheb(1, n), 3, 5, n) = C[n][1] /\ 4 * PAt(Cheb(2, n), 3, 5, n) = C[n + 1][2]
==================================================================================
