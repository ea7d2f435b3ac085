--------------------------------- MODULE VecModel ---------------------------------
(* The laws that the operations of Vec obey, over a walk through all small vectors:   *)
(* a direction and a point are turned, mirrored and bounced at each other.            *)
EXTENDS Vec
CONSTANTS R, N, Steps
VARIABLES v, w, left

Vecs == [1..N -> (-R)..R]
Init == v \in Vecs /\ w \in Vecs /\ left = Steps
Small(x) == \A i \in 1..N : Abs(x[i]) <= R
Next == /\ left > 0 /\ left' = left - 1
        /\ \/ v' = w /\ w' = v
           \/ v' = VNeg(v) /\ w' = w
           \/ \E k \in 1..N : v' = Flip(v, k) /\ w' = w
           \/ v' = VAdd(v, w) /\ w' = w
           \/ v' = VSub(v, w) /\ w' = w
           \/ v' = VMul(v, w) /\ w' = w
           \/ N = 3 /\ v' = Cross(v, w) /\ w' = w
           \/ N = 2 /\ v' = LeftOf(v) /\ w' = w
        /\ Small(v')
Spec == Init /\ [][Next]_<<v, w, left>>

Ring == /\ VAdd(v, w) = VAdd(w, v) /\ VMul(v, w) = VMul(w, v) /\ VSub(v, w) = VAdd(v, VNeg(w))
        /\ VAdd(v, VZero(N)) = v /\ VMul(v, Fill(1, N)) = v /\ VSub(v, v) = VZero(N)
        /\ Mag2(VAdd(v, w)) = Mag2(v) + Mag2(w) + 2 * Dot(v, w)
        /\ Dot(v, w) * Dot(v, w) <= Mag2(v) * Mag2(w)
Mirror == LET m == Mag2(w) IN m # 0 =>
          /\ Mirrored(Mirrored(v, w), w) = VScale(m * m, v)             \* twice is nothing
          /\ Mag2(Mirrored(v, w)) = m * m * Mag2(v)                     \* lengths stay
          /\ Mirrored(w, w) = VScale(m, w) /\ Bounced(w, w) = VScale(-m, w)
          /\ Dot(Bounced(v, w), w) = -m * Dot(v, w)                     \* only what faces the surface turns
          /\ VSub(VScale(m, v), OnAxis(v, w)) = VSub(Bounced(v, w), VNeg(OnAxis(v, w)))
          /\ Dot(VSub(VScale(m, v), OnAxis(v, w)), w) = 0
          /\ OnAxis(OnAxis(v, w), w) = VScale(m, OnAxis(v, w))
Order == /\ Least(v) <= Most(v) /\ ArgMost(v) \in 0..(N - 1) /\ ArgLeast(v) \in 0..(N - 1)
         /\ \A i \in 1..N : Abs(v[i]) <= Abs(v[ArgMost(v) + 1]) /\ Abs(v[i]) >= Abs(v[ArgLeast(v) + 1])
         /\ LET lo == Zip(MinOf, v, w) hi == Zip(MaxOf, v, w) IN
            /\ VAdd(lo, hi) = VAdd(v, w) /\ VClamp(v, lo, hi) = v /\ VClamp(VScale(9, v), lo, hi) = VClamp(VClamp(VScale(9, v), lo, hi), lo, hi)
Mixes == /\ Mixed(v, w, 0, 4) = VScale(4, v) /\ Mixed(v, w, 4, 4) = VScale(4, w) /\ Mixed(v, w, 1, 4) = Mixed(w, v, 3, 4)
Turns == /\ N = 3 => /\ Dot(Cross(v, w), v) = 0 /\ Dot(Cross(v, w), w) = 0 /\ Cross(v, w) = VNeg(Cross(w, v))
                     /\ Mag2(Cross(v, w)) = Mag2(v) * Mag2(w) - Dot(v, w) * Dot(v, w)
         /\ N = 2 => /\ LeftOf(LeftOf(v)) = VNeg(v) /\ RightOf(LeftOf(v)) = v /\ Dot(LeftOf(v), v) = 0
                     /\ v[1] * LeftOf(v)[2] - v[2] * LeftOf(v)[1] = Mag2(v)
Rays == \A o \in {VZero(N), Axis(1, N), Fill(1, N)} : LET m == Mag2(w) f == Foot(o, w, v) IN
         IF m = 0 THEN f = o
         ELSE /\ Dot(VSub(VScale(m, v), f), w) = 0
              /\ Mag2(VSub(VScale(m, v), f)) = m * OffLine2(o, w, v)
              /\ \A s \in -2..2 : Mag2(VSub(v, RayAt(o, w, s))) * m >= OffLine2(o, w, v)
              /\ \A s \in -2..2 : OffLine2(o, w, RayAt(o, w, s)) = 0
Rounding == \A x \in (-9)..9 : \A q \in {1, 2, 4} :
         /\ q * FloorQ(x, q) <= x /\ x < q * (FloorQ(x, q) + 1) /\ q * CeilQ(x, q) >= x /\ x > q * (CeilQ(x, q) - 1)
         /\ 2 * Abs(q * RoundQ(x, q) - x) <= q /\ RoundQ(-x, q) = -RoundQ(x, q)
         /\ \A y \in (-3)..3 : y # 0 => (Abs(x - y * Trunc(x, y)) < Abs(y) /\ Abs(y * Trunc(x, y)) <= Abs(x))
Hues == \A s \in (-30)..30 : LET c == Hue(s, 12) IN
         /\ Most(c) = 12 /\ Least(c) = 0 /\ c = Hue(s + 12, 12)
         /\ Hue(s + 4, 12) = <<c[3], c[1], c[2]>>
===================================================================================
