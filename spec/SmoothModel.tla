-------------------------------- MODULE SmoothModel ----------------------------------
(* What makes the pieces smooth, as laws of module Smooth.                             *)
EXTENDS Smooth
CONSTANTS R, B
VARIABLES g, h
vars == <<g, h>>
V == -R..R
G2 == [1..4 -> {<<a, b>> : a \in V, b \in B}]
Init == g \in G2 /\ h \in {<<<<1, 2>>, <<0, -1>>>>, <<<<-1, 0>>, <<2, 1>>>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* the ease itself: 6t^5 - 15t^4 + 10t^3 in quarters is (6t^5 - 60t^4 + 160t^3)/1024, its slope 30 (t(t-4))^2/256
Ease == \A t \in 0..4 : /\ EaseN(t) * 1024 = EaseD(t) * (6*t*t*t*t*t - 60*t*t*t*t + 160*t*t*t)
                        /\ SlopeN(t) * 256 = EaseD(t) * 30 * t*t * (t-4)*(t-4)
\* zero on the corners, with the corner's gradient
Corners == \A c \in 0..3 : LET p == <<4 * Bit(c, 1), 4 * Bit(c, 2)>>
                           IN  Noise(g, p) = 0 /\ \A k \in 1..2 : NoiseSlope(g, p, k) = 4 * g[c + 1][k]
\* no seam between this cell and the one to its right, whatever lies on the far side of that
Next1 == <<g[2], h[1], g[4], h[2]>>
Seams == \A y \in 0..4 : /\ Noise(g, <<4, y>>) = Noise(Next1, <<0, y>>)
                         /\ \A k \in 1..2 : NoiseSlope(g, <<4, y>>, k) = NoiseSlope(Next1, <<0, y>>, k)
\* a path through three knots made of g
Ks == <<<<g[1], g[2]>>, <<g[3], g[4]>>, h>>
Through == \A i \in 0..2, a \in 1..2 : PathAt(Ks, 4 * i, a) = 4 * PathD(Ks, 4 * i) * Ks[i + 1][1][a]
\* straight knots in step make a straight path
Straight == LET s == <<<<g[1], g[2]>>, <<<<g[1][1] + g[2][1], g[1][2] + g[2][2]>>, g[2]>>>>
            IN  \A t \in -4..9, a \in 1..2 : PathAt(s, t, a) = PathD(s, t) * (4 * g[1][a] + t * g[2][a])
===================================================================================
