-------------------------------- MODULE HarmonicsModel ----------------------------------
(* Laws which pin down the polynomials and harmonics of module Harmonics.                 *)
EXTENDS Harmonics
CONSTANTS L
VARIABLES l, x, d, e
vars == <<l, x, d, e>>
Dirs == {<<1,0,0,1>>, <<0,-1,0,1>>, <<0,0,1,1>>, <<0,0,-1,1>>, <<1,2,2,3>>, <<-2,1,2,3>>, <<2,-2,-1,3>>}
Init == l \in 0..L /\ x \in -3..3 /\ d \in Dirs /\ e \in Dirs
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Ends == P(l, 1, 1) = 2^l /\ P(l, -1, 1) = Sgn(l) * 2^l
\* (n+1) P_n+1 = (2n+1) x P_n - n P_n-1
Bonnet == l >= 1 => (l + 1) * P(l + 1, x, 3) = 2 * ((2 * l + 1) * x * P(l, x, 3)) - 4 * l * 9 * P(l - 1, x, 3)
\* 2520 times the integral over [-1, 1] of a polynomial of degree up to 9
Whole(c) == LET t(k) == IF k % 2 = 1 THEN c[k] * 2 * (2520 \div k) ELSE 0 IN SumF(t, 1, Len(c))
Times(a, b) == [k \in 1..(Len(a) + Len(b) - 1) |->
                 LET t(j) == a[j] * b[k - j + 1] IN SumF(t, Max2(1, k - Len(b) + 1), Min2(k, Len(a)))]
Orthogonal == \A j \in 0..4 : l <= 4 => Whole(Times(Leg(l), Leg(j))) * (2 * l + 1) = (IF l = j THEN 2520 * 2 * 4^l ELSE 0)
\* the derivative of the integral, and where it starts
Integral == LET c == Leg(l)
                up == IF l = 0 THEN <<2, 2>> ELSE
                      [k \in 1..(l + 2) |-> Leg(l + 1)[k] - (IF k <= l THEN 4 * Leg(l - 1)[k] ELSE 0)]
            IN  /\ Diff(up) = [k \in 1..(l + 1) |-> 2 * (2 * l + 1) * c[k]]
                /\ PInt(l, -1, 1) = 0
                /\ PInt(l, x, 3) = At(up, x, 3)
\* T_n(cos t) = cos nt and U_n(cos t) sin t = sin (n+1)t, at the angle of (3 + 4i)/5
Circle == /\ Cheb(1, l, 3, 5) = CPow(3, 4, l)[1]
          /\ Cheb(2, l, 3, 5) * 4 = CPow(3, 4, l + 1)[2]
\* the sum over sub-bands depends on the angle alone: P_l(d.e) (2q)^l (2r)^l
Weight(m) == LET a == IF m < 0 THEN -m ELSE m IN (IF m = 0 THEN 1 ELSE 2) * (Fact(2 * l) \div Fact(l + a)) * Fact(l - a)
Addition == l <= 3 =>
  LET t(m) == Weight(m) * Y(l, m, d, d[4]) * Y(l, m, e, e[4])
      p == d[1] * e[1] + d[2] * e[2] + d[3] * e[3]
  IN  SumF(t, -l, l) = Fact(2 * l) * 2^l * P(l, p, d[4] * e[4])
\* a spot as wide as the sphere is 1, and one of no width is 0
Spots == Spot(l, 1, 1) = 0 /\ Spot(l, -1, 1) = (IF l = 0 THEN 4 ELSE 0)
Lamberts == l <= 6 => Lambert(l) = CASE l = 0 -> 1260 [] l = 1 -> 5040 [] l = 2 -> 6300 [] l = 4 -> -7560 [] l = 6 -> 16380 [] OTHER -> 0
===================================================================================
