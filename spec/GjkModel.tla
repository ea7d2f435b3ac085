--------------------------------- MODULE GjkModel ---------------------------------
(* The overlap test of Intersect.h as a state machine over polytopes: search for the  *)
(* origin in the difference body, whose vertices are verts.  Each step asks for a      *)
(* point furthest along dir (any one: the choice is free), adds it to the simplex and  *)
(* keeps the face of the simplex nearest the origin.  Runs follow one another: the     *)
(* axis a run leaves behind starts the next, on a body moved by one step.              *)
(* Whatever the body, the axis and the choices: a verdict is right, a "no" leaves a     *)
(* separating axis, and a run ends within MaxIter steps.                               *)
EXTENDS LinAlg, TLC
CONSTANTS N, R, K, MaxIter, Runs
(* bodies are hulls of K points with coordinates up to R *)
VARIABLES verts, axis, simplex, dir, last, iter, verdict, runs

vars == <<verts, axis, simplex, dir, last, iter, verdict, runs>>
Zero == VZero(N)
Points == [1..N -> -R..R]
Dirs == [1..N -> -1..1] \ {Zero}

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdOf(_, _)
GcdOf(v, n) == IF n = 0 THEN 0 ELSE Gcd(Abs(v[n]), GcdOf(v, n - 1))
Reduce(v) == LET g == GcdOf(v, N) IN IF g = 0 THEN v ELSE [i \in 1..N |-> IF v[i] >= 0 THEN v[i] \div g ELSE -((-v[i]) \div g)]

(* ---- the point of the plane through f nearest the origin, over a positive denominator,
        and the signs of its barycentric coordinates *)
Seqs(f) == CHOOSE q \in [1..Cardinality(f) -> f] : {q[i] : i \in 1..Cardinality(f)} = f
Foot(q) ==
    CASE Len(q) = 1 -> [den |-> 1, y |-> q[1], in |-> TRUE]
      [] Len(q) = 2 -> LET e == VSub(q[2], q[1]) m == Mag2(e) t == -Dot(q[1], e)
                       IN  [den |-> m, y |-> VAdd(VScale(m, q[1]), VScale(t, e)), in |-> t > 0 /\ t < m]
      [] Len(q) = 3 /\ N = 3 ->
                       LET n == Cross(VSub(q[2], q[1]), VSub(q[3], q[1])) m == Mag2(n) k == Dot(n, q[1])
                           S(i, j) == Dot(n, Cross(q[i], q[j]))            \* areas seen from the foot, times m
                       IN  [den |-> m, y |-> VScale(k, n), in |-> m # 0 /\ S(1, 2) > 0 /\ S(2, 3) > 0 /\ S(3, 1) > 0]
      [] OTHER -> LET d(i) == Sgn(Det([j \in 1..N |-> VSub(q[IF j < i THEN j ELSE j + 1], Zero)])) * (IF i % 2 = 0 THEN -1 ELSE 1)
                  IN  [den |-> 1, y |-> Zero, in |-> \/ \A i \in 1..(N + 1) : d(i) > 0
                                                     \/ \A i \in 1..(N + 1) : d(i) < 0]
(* the face of simplex s nearest the origin *)
IsNearest(s, f) == LET c == Foot(Seqs(f)) IN
    c.in /\ (Cardinality(f) > 1 => c.den > 0) /\ \A p \in s : c.den * Dot(p, c.y) >= Dot(c.y, c.y)
Nearest(s) == CHOOSE f \in SUBSET s : f # {} /\ IsNearest(s, f)
Towards(f) == Reduce(VScale(-1, Foot(Seqs(f)).y))

(* ---- the truth: the origin is in the hull iff it is in the hull of some N + 1 or fewer of the points *)
Overlap == \E f \in SUBSET verts : f # {} /\ Cardinality(f) <= N + 1 /\ LET c == Foot(Seqs(f)) IN c.in /\ c.den > 0 /\ c.y = Zero
Furthest(d) == {p \in verts : \A q \in verts : Dot(q, d) <= Dot(p, d)}

Begin(v, ax) == LET x == IF ax = Zero THEN [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0] ELSE ax IN
    \E a \in {p \in v : \A q \in v : Dot(q, x) <= Dot(p, x)} :
        /\ simplex' = {a} /\ dir' = Reduce(VScale(-1, a)) /\ last' = a /\ iter' = 0
        /\ verdict' = IF a = Zero THEN "yes" ELSE "run"
Start == verdict = "new" /\ Begin(verts, axis) /\ UNCHANGED <<verts, axis, runs>>
Search == verdict = "run" /\ \E a \in Furthest(dir) :
    LET k == Dot(a, dir) IN
    /\ iter' = iter + 1
    /\ IF k < 0 \/ a = last
       THEN /\ verdict' = IF k >= 0 THEN "yes" ELSE "no"
            /\ axis' = IF k < 0 THEN dir ELSE IF k = 0 THEN Zero ELSE VScale(-1, dir)
            /\ UNCHANGED <<simplex, dir, last>>
       ELSE LET f == Nearest(simplex \cup {a}) d == Towards(f) IN
            /\ simplex' = f /\ dir' = d /\ last' = a
            /\ IF d = Zero THEN verdict' = "yes" /\ axis' = Zero ELSE UNCHANGED <<verdict, axis>>
    /\ UNCHANGED <<verts, runs>>
Again == /\ verdict \in {"yes", "no"} /\ runs < Runs /\ runs' = runs + 1
         /\ \E d \in Dirs : verts' = {VAdd(p, d) : p \in verts}
         /\ verdict' = "new" /\ UNCHANGED <<axis, simplex, dir, last, iter>>

Init == /\ verts \in {v \in SUBSET Points : Cardinality(v) = K}
        /\ axis \in {Zero, [i \in 1..N |-> 1]}
        /\ simplex = {} /\ dir = Zero /\ last = Zero /\ iter = 0 /\ verdict = "new" /\ runs = 1
Next == Start \/ Search \/ Again
Spec == Init /\ [][Next]_vars

Right == /\ verdict = "yes" => Overlap
         /\ verdict = "no" => ~Overlap
Separates == verdict = "no" => \A p \in verts : Dot(p, axis) < 0
Ends == iter <= MaxIter
Inside == simplex \subseteq verts \/ verdict = "new"
=================================================================================
