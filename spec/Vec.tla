----------------------------------- MODULE Vec -----------------------------------
(* Vectors of whole numbers: what each operation on a vector or a ray means.  A      *)
(* result which need not be whole is given as numerators over a denominator.         *)
EXTENDS LinAlg

Map(F(_), v) == [i \in 1..Len(v) |-> F(v[i])]
Zip(F(_, _), u, v) == [i \in 1..Len(u) |-> F(u[i], v[i])]
VMul(u, v) == Zip(LAMBDA x, y : x * y, u, v)
VNeg(v) == Map(LAMBDA x : -x, v)
\* towards zero, as whole numbers divide
Trunc(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
VTrunc(u, v) == Zip(LAMBDA x, y : Trunc(x, y), u, v)
Fill(x, n) == [i \in 1..n |-> x]
Axis(k, n) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]

(* in units of 1/q *)
FloorQ(x, q) == x \div q
CeilQ(x, q) == -((-x) \div q)
RoundQ(x, q) == Sgn(x) * ((2 * Abs(x) + q) \div (2 * q))

Least(v) == CHOOSE x \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : x <= v[i]
Most(v) == CHOOSE x \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : x >= v[i]
\* the first place of the entry of greatest and least magnitude, from 0
ArgMost(v) == (CHOOSE i \in 1..Len(v) : (\A j \in 1..Len(v) : Abs(v[i]) >= Abs(v[j])) /\ (\A j \in 1..(i - 1) : Abs(v[j]) < Abs(v[i]))) - 1
ArgLeast(v) == (CHOOSE i \in 1..Len(v) : (\A j \in 1..Len(v) : Abs(v[i]) <= Abs(v[j])) /\ (\A j \in 1..(i - 1) : Abs(v[j]) > Abs(v[i]))) - 1
VClamp(v, lo, hi) == [i \in 1..Len(v) |-> IF v[i] < lo[i] THEN lo[i] ELSE IF v[i] > hi[i] THEN hi[i] ELSE v[i]]

(* over n.n *)
OnAxis(v, n) == VScale(Dot(v, n), n)
Mirrored(v, n) == VSub(VScale(2 * Dot(v, n), n), VScale(Mag2(n), v))
Bounced(v, n) == VNeg(Mirrored(v, n))
(* over q, for a parameter of t/q *)
Mixed(u, v, t, q) == VAdd(VScale(q - t, u), VScale(t, v))

LeftOf(v) == <<-v[2], v[1]>>
RightOf(v) == <<v[2], -v[1]>>
Flip(v, k) == [i \in 1..Len(v) |-> IF i = k THEN -v[i] ELSE v[i]]
Resize(v, m) == [i \in 1..m |-> IF i <= Len(v) THEN v[i] ELSE 0]

(* hues: for a parameter of s/q turns, channels over q *)
Unit01(x, q) == MinOf(q, MaxOf(0, x))
Hue(s, q) == LET h == 6 * (s % q) IN
    <<Unit01(Abs(h - 3 * q) - q, q), Unit01(2 * q - Abs(h - 2 * q), q), Unit01(2 * q - Abs(h - 4 * q), q)>>

Byte(c, k) == (c \div (CASE k = 0 -> 1 [] k = 1 -> 256 [] k = 2 -> 65536)) % 256

(* rays: <<origin, direction>> *)
RayAt(o, d, s) == VAdd(o, VScale(s, d))
\* the foot of the perpendicular from p, over d.d
Foot(o, d, p) == IF Mag2(d) = 0 THEN o ELSE VAdd(VScale(Mag2(d), o), OnAxis(VSub(p, o), d))
\* (distance from p to the line)^2, over d.d
OffLine2(o, d, p) == LET w == VSub(p, o) IN Mag2(w) * Mag2(d) - Dot(w, d) * Dot(w, d)
==================================================================================
