---------------------------------- MODULE Facet ----------------------------------
(* Planes and the faces of simplexes, in whole numbers.                             *)
(* A plane is the record [n, k]: the points x with n.x = k; its inside is n.x <= k. *)
(* A face is a sequence of affinely independent points, of any dimension from a     *)
(* single point up to a full simplex.                                               *)
EXTENDS Shape, TLC

(* ------------------------------------------------------------------ planes *)
Off(pl, P, q) == Dot(pl.n, P) - q * pl.k                     \* times q|n|: the distance of P/q
(* the plane under x -> m x + t (m invertible), and under its inverse *)
Moved(pl, m, t) == LET d == Det(m)
                       n == VScale(Sgn(d), MVec(Transp(Adj(m)), pl.n))
                   IN  [n |-> n, k |-> Abs(d) * pl.k + Dot(n, t)]
Unmoved(pl, m, t) == [n |-> MVec(Transp(m), pl.n), k |-> pl.k - Dot(pl.n, t)]
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, Abs(a) % Abs(b))
RECURSIVE GCDTo(_, _)
GCDTo(v, i) == IF i = 0 THEN 0 ELSE GCD(GCDTo(v, i - 1), v[i])
(* the same plane in lowest terms *)
Lowest(pl) == LET g == GCD(GCDTo(pl.n, Len(pl.n)), pl.k)
              IN  [n |-> [i \in DOMAIN pl.n |-> Sgn(pl.n[i]) * (Abs(pl.n[i]) \div g)], k |-> Sgn(pl.k) * (Abs(pl.k) \div g)]
SamePlane(a, b) == Lowest(a) = Lowest(b)

(* ------------------------------------------------------------------ faces *)
Gram(e) == [i \in 1..Len(e) |-> [j \in 1..Len(e) |-> Dot(e[i], e[j])]]
(* Weights of the foot of P/q on the space spanned by face f: <<w, d>>, where the   *)
(* foot is the sum of w[i]/d * f[i] and w sums to d > 0.                            *)
Weights(f, P, q) ==
    LET k == Len(f) - 1
        e == Edges(f)
        G == TLCEval(Gram(e))
        r == TLCEval([i \in 1..k |-> Dot(e[i], VSub(P, VScale(q, f[1])))])
        D == Det(G)
        w == TLCEval([j \in 1..k |-> Det([a \in 1..k |-> [b \in 1..k |-> IF b = j THEN r[a] ELSE G[a][b]]])])
    IN  <<TLCEval([i \in 1..(k + 1) |-> IF i = 1 THEN q * D - SumTo(w, k) ELSE w[i - 1]]), q * D>>
(* the foot, times the denominator of the weights *)
FootOf(f, w) == TLCEval([c \in 1..Len(f[1]) |-> SumTo([i \in 1..Len(f) |-> w[i] * f[i][c]], Len(f))])
(* the square of the distance from P/q to the space spanned by f, times q^2 Det(Gram) *)
Gap(f, P, q) == LET e == Edges(f) IN Det(Gram(Append(e, VSub(P, VScale(q, f[1])))))
Spread(f) == Det(Gram(Edges(f)))

(* the faces of simplex p, as increasing sequences of vertex numbers *)
Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i \in 1..(Cardinality(S) - 1) : s[i] < s[i + 1]
Sub(p, S) == LET s == Sorted(S) IN TLCEval([i \in 1..Len(s) |-> p[s[i]]])

(* whether a/b < c/d, all denominators positive, without large products *)
RECURSIVE Less(_, _, _, _)
Less(a, b, c, d) == LET x == a \div b y == c \div d IN
                    IF x # y THEN x < y
                    ELSE LET r == a % b s == c % d IN
                         IF s = 0 THEN FALSE ELSE IF r = 0 THEN TRUE ELSE Less(d, s, b, r)
==================================================================================
