--------------------------------- MODULE Affine ---------------------------------
(* Affine maps of n-space as homogeneous matrices over the rationals:             *)
(* [m |-> integer matrix, d |-> common denominator].  An invertible map carries    *)
(* its inverse.  Rotations are given by an axis of length L (whole numbers), and   *)
(* the cosine and sine c/h and s/h.                                                *)
EXTENDS LinAlg

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
RECURSIVE GcdSeq(_)
GcdSeq(s) == IF s = <<>> THEN 0 ELSE Gcd(GcdSeq(Tail(s)), Head(s))
Reduce(x) == LET g == Gcd(GcdSeq([i \in DOMAIN x.m |-> GcdSeq(x.m[i])]), x.d)
             IN  [m |-> [i \in DOMAIN x.m |-> [j \in DOMAIN x.m[i] |-> x.m[i][j] \div g]], d |-> x.d \div g]
RMul(a, b) == Reduce([m |-> MMul(a.m, b.m), d |-> a.d * b.d])
RIdent(n) == [m |-> Ident(n, n), d |-> 1]

Cof(a, i, j) == LET n == Len(a)
                    Sub == [r \in 1..(n - 1) |-> [c \in 1..(n - 1) |-> a[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1]]]
                IN  (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Sub)
Adj(a) == Mat(Len(a), Len(a), LAMBDA i, j : Cof(a, j, i))

(* ---- linear parts, as rationals ---- *)
Hom(a, t, d) == LET n == Len(a) IN
    Reduce([m |-> Mat(n + 1, n + 1, LAMBDA i, j : IF i <= n THEN (IF j <= n THEN a[i][j] ELSE t[i]) ELSE (IF j <= n THEN 0 ELSE d)), d |-> d])
\* the inverse of x -> (a x + t)/d, when det a # 0
InvHom(a, t, d) == LET det == Det(a) s == Sgn(det) b == Adj(a)
                       \* x = d a^-1 y - a^-1 t
                   IN  Hom(Mat(Len(a), Len(a), LAMBDA i, j : s * d * b[i][j]), [i \in 1..Len(a) |-> -s * Dot(b[i], t)], Abs(det))
Lin(x) == LET n == Len(x.m) - 1 IN Mat(n, n, LAMBDA i, j : x.m[i][j])
Shift(x) == [i \in 1..(Len(x.m) - 1) |-> x.m[i][Len(x.m)]]

Xf(a, t, d) == [f |-> Hom(a, t, d), g |-> InvHom(a, t, d)]
Rigid(a, d) == [f |-> Hom(a, VZero(Len(a)), d), g |-> Hom(Transp(a), VZero(Len(a)), d)]   \* a a^T = d^2 I
XIdent(n) == [f |-> RIdent(n + 1), g |-> RIdent(n + 1)]
XInv(x) == [f |-> x.g, g |-> x.f]
\* x first, then y
XThen(x, y) == [f |-> RMul(y.f, x.f), g |-> RMul(x.g, y.g)]

Translate(t) == Xf(Ident(Len(t), Len(t)), t, 1)
\* scaling by p[i]/q
Scaling(p, q) == Xf(Mat(Len(p), Len(p), LAMBDA i, j : IF i = j THEN p[i] ELSE 0), VZero(Len(p)), q)
General(a) == Xf(a, VZero(Len(a)), 1)
About(x, ctr) == XThen(XThen(Translate(VScale(-1, ctr)), x), Translate(ctr))

(* rotation about an axis u of length L by the angle of cosine c/h and sine s/h:    *)
(* v -> c/h v + (1 - c/h) u (u.v)/L^2 + s/h (u x v)/L;  denominator h L^2           *)
SkewOf(u) == <<<<0, -u[3], u[2]>>, <<u[3], 0, -u[1]>>, <<-u[2], u[1], 0>>>>
RotAxis(u, L, c, s, h) == LET k == SkewOf(u) IN
    Rigid(Mat(3, 3, LAMBDA i, j : ((IF i = j THEN c * L * L ELSE 0) + (h - c) * u[i] * u[j]) + (s * L * k[i][j])), h * L * L)
RotPlane(c, s, h) == Rigid(<<<<c, -s>>, <<s, c>>>>, h)
(* rotation of a whole quaternion (x, y, z | w) *)
RotQuat(q) == LET x == q[1] y == q[2] z == q[3] w == q[4] IN
    Rigid(<<<<w*w + x*x - y*y - z*z, 2*(x*y - z*w), 2*(x*z + y*w)>>,
         <<2*(x*y + z*w), w*w - x*x + y*y - z*z, 2*(y*z - x*w)>>,
         <<2*(x*z - y*w), 2*(y*z + x*w), w*w - x*x - y*y + z*z>>>>, Mag2(q))
(* rotation taking u to v, both of length L, along the great circle; v # -u:        *)
(* c I + [k] + k k^T / (1 + c), k = u x v / L^2, c = u.v / L^2                        *)
RotAlign(u, v, L) == LET L2 == L * L c == Dot(u, v) k == Cross(u, v) sk == SkewOf(k) IN
    Rigid(Mat(3, 3, LAMBDA i, j : ((IF i = j THEN c * (L2 + c) ELSE 0) + sk[i][j] * (L2 + c)) + k[i] * k[j]), L2 * (L2 + c))

(* ---- applying: numerators over x.d ---- *)
Pt(x, p) == MVec(x.m, Append(p, 1))
OnPoint(x, p) == SubSeq(Pt(x, p), 1, Len(p))
OnVector(x, v) == MVec(Lin(x), v)
OnNormal(xinv, nrm) == MVec(Transp(Lin(xinv)), nrm)

(* keep the first k axes of an n-dimensional map (or add fixed ones) *)
Resize(x, k) == LET n == Len(x.m) - 1 a == Lin(x) t == Shift(x) IN
    Hom(Mat(k, k, LAMBDA i, j : IF i <= n /\ j <= n THEN a[i][j] ELSE IF i = j THEN x.d ELSE 0),
        [i \in 1..k |-> IF i <= n THEN t[i] ELSE 0], x.d)
ResizeX(x, k) == LET f == Resize(x.f, k) n == Len(x.f.m) - 1
                 IN [f |-> f, g |-> IF k >= n THEN Resize(x.g, k) ELSE IF Det(Lin(f)) = 0 THEN f ELSE InvHom(Lin(f), Shift(f), f.d)]
=================================================================================
