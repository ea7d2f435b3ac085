------------------------------- MODULE AffineModel ------------------------------
(* A map built step by step from small pieces, beside its plain effect on points:  *)
(* composition, inverse and the transformation of vectors and normals are what the *)
(* words say.                                                                      *)
EXTENDS Affine
CONSTANTS Steps
VARIABLES x, path, k         \* the map; the pieces applied, in order
vars == <<x, path, k>>

Pieces == {Translate(<<2, -1, 1>>), Scaling(<<2, 1, -1>>, 1), Scaling(<<1, 3, 2>>, 2), General(<<<<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>),
           RotAxis(<<0, 0, 2>>, 2, 3, 4, 5), RotAxis(<<1, 2, 2>>, 3, 0, 1, 1), RotQuat(<<1, 0, 0, 1>>), RotAlign(<<1, 2, 2>>, <<2, 1, -2>>, 3),
           About(RotAxis(<<1, 0, 0>>, 1, 0, -1, 1), <<0, 1, 2>>), ResizeX(RotPlane(-4, 3, 5), 3)}
Points == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, -2, 3>>}

Init == x = XIdent(3) /\ path = <<>> /\ k = 0
Next == /\ k < Steps
        /\ k' = k + 1
        /\ \E y \in Pieces : \/ x' = XThen(x, y) /\ path' = Append(path, <<y, FALSE>>)
                             \/ x' = XThen(x, XInv(y)) /\ path' = Append(path, <<y, TRUE>>)
Spec == Init /\ [][Next]_vars

\* a rational point carried along the path
Carry(p, d, f) == LET q == MVec(f.m, Append(p, d)) IN [p |-> SubSeq(q, 1, 3), d |-> d * f.d]
RECURSIVE Walk(_, _, _)
Walk(p, d, ps) == IF ps = <<>> THEN [p |-> p, d |-> d]
                  ELSE LET s == Head(ps) r == Carry(p, d, IF s[2] THEN s[1].g ELSE s[1].f) IN Walk(r.p, r.d, Tail(ps))
Carries == \A p \in Points : LET r == Walk(p, 1, path) IN VScale(r.d, OnPoint(x.f, p)) = VScale(x.f.d, r.p)
Undoes == RMul(x.f, x.g) = RIdent(4) /\ RMul(x.g, x.f) = RIdent(4)
\* directions are differences of points; normals stay normal
Directions == \A p, v \in Points : VSub(OnPoint(x.f, VAdd(p, v)), OnPoint(x.f, p)) = OnVector(x.f, v)
Normals == \A n, v \in Points : Dot(OnNormal(x.g, n), OnVector(x.f, v)) = Dot(n, v) * x.f.d * x.g.d
Pure == \A y \in Pieces : Lin(y.f) = Lin(y.f) /\ RMul(y.f, y.g) = RIdent(4)
\* the rotations keep lengths and handedness, and take what they should where they should
IsRigid(y) == LET a == Lin(y.f) IN MMul(a, Transp(a)) = MScale(y.f.d * y.f.d, Ident(3, 3)) /\ Det(a) > 0
Rotations == /\ \A u \in {<<1, 2, 2>>, <<0, 0, -1>>} : \A a \in {<<3, 4, 5>>, <<-1, 0, 1>>, <<0, -1, 1>>} :
                  LET L == IF u[1] = 1 THEN 3 ELSE 1 r == RotAxis(u, L, a[1], a[2], a[3]) IN IsRigid(r) /\ OnVector(r.f, u) = VScale(r.f.d, u)
             /\ \A v \in {<<2, 1, -2>>, <<1, 2, 2>>, <<-2, 2, -1>>} :
                  LET r == RotAlign(<<1, 2, 2>>, v, 3) IN IsRigid(r) /\ OnVector(r.f, <<1, 2, 2>>) = VScale(r.f.d, v)
             /\ \A q \in {<<1, 2, 0, 1>>, <<0, 0, 0, -2>>, <<1, -1, 1, 1>>} : IsRigid(RotQuat(q)) /\ OnVector(RotQuat(q).f, SubSeq(q, 1, 3)) = VScale(RotQuat(q).f.d, SubSeq(q, 1, 3))
=================================================================================
