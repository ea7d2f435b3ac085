------------------------------- MODULE AffineTrace ------------------------------
(* Recorded histories of transforms held in registers.  Outputs are in units of     *)
(* 1/1024, rounded, off by at most e.tol.                                            *)
EXTENDS Affine, TraceKit
VARIABLES xs, l                  \* registers: sequence of maps
tvars == <<xs, l>>
E == Trace[l + 1]
U == 1024

Near(out, num, d) == Abs(out * d - U * num) <= E.tol * d
NearVec(out, nums, d) == Len(out) = Len(nums) /\ \A i \in DOMAIN nums : Near(out[i], nums[i], d)
NearMat(out, x) == Len(out) = Len(x.m) /\ \A i \in DOMAIN x.m : NearVec(out[i], x.m[i], x.d)
Shows(x) == NearMat(E.mat, x.f) /\ NearMat(E.inv, x.g)

New == CASE E.how = "ident" -> XIdent(E.n)
         [] E.how = "trans" -> Translate(E.t)
         [] E.how = "scale" -> Scaling(E.t, E.q)
         [] E.how = "matrix" -> General(E.a)
         [] E.how = "axis" -> RotAxis(E.u, E.L, E.c, E.s, E.h)
         [] E.how = "center" -> About(RotAxis(E.u, E.L, E.c, E.s, E.h), E.ctr)
         [] E.how = "plane" -> RotPlane(E.c, E.s, E.h)
         [] E.how = "quat" -> RotQuat(E.q)
         [] OTHER -> RotAlign(E.u, E.v, E.L)
Put(k, x) == Shows(x) /\ xs' = [xs EXCEPT ![k] = x]
X(k) == xs[k]

Act ==
  CASE E.op = "New" -> Put(E.k, New)
    [] E.op = "Then" -> Put(E.k, XThen(X(E.i), X(E.j)))            \* i followed by j
    [] E.op = "ThenInv" -> Put(E.k, XThen(X(E.i), XInv(X(E.j))))
    [] E.op = "Inverse" -> Put(E.k, XInv(X(E.i)))
    [] E.op = "Same" -> Shows(X(E.i)) /\ UNCHANGED xs                \* casts
    [] E.op = "Equal" -> /\ E.i = E.j => E.ret
                         /\ E.ret => NearMat([r \in DOMAIN X(E.i).f.m |-> [c \in DOMAIN X(E.i).f.m |-> (U * X(E.i).f.m[r][c]) \div X(E.i).f.d]], X(E.j).f)
                         /\ E.ret => E.hash
                         /\ UNCHANGED xs
    [] E.op = "Resize" -> /\ LET r == ResizeX(X(E.i), E.to) IN
                             /\ NearMat(E.mat, r.f)
                             /\ (E.to >= E.n \/ Det(Lin(r.f)) # 0) => NearMat(E.inv, r.g)
                          /\ UNCHANGED xs
    [] E.op = "Apply" -> /\ LET x == X(E.i) IN
                            /\ NearVec(E.pt, OnPoint(x.f, E.p), x.f.d) /\ NearVec(E.ipt, OnPoint(x.g, E.p), x.g.d)
                            /\ NearVec(E.vec, OnVector(x.f, E.v), x.f.d) /\ NearVec(E.ivec, OnVector(x.g, E.v), x.g.d)
                            /\ NearVec(E.nrm, OnNormal(x.g, E.v), x.g.d) /\ NearVec(E.inrm, OnNormal(x.f, E.v), x.f.d)
                            /\ E.pt2 = E.pt /\ E.ipt2 = E.ipt
                            /\ E.ray = <<E.pt, E.vec>> /\ E.iray = <<E.ipt, E.ivec>>
                            /\ Len(E.dir) = Len(E.p) /\ \A i \in DOMAIN E.dir : NearVec(E.dir[i], Lin(x.f)[i], x.f.d)
                         /\ UNCHANGED xs
    \* a rotation taking u to -u: some half turn
    [] E.op = "Reverse" -> /\ NearVec(MVec(E.mat, E.u), VScale(-E.L, E.u), E.L)
                           /\ LET m == E.mat mm == MMul(m, Transp(m)) IN
                              /\ \A i, j \in 1..3 : Abs(mm[i][j] - (IF i = j THEN U * U ELSE 0)) <= 16 * U
                              /\ Abs((m[1][1] + m[2][2]) + m[3][3] + U) <= 16              \* half a turn
                           /\ E.inv = Transp(E.mat)
                           /\ UNCHANGED xs
    [] OTHER -> FALSE
StepOK == "nan" \notin DOMAIN E /\ Act

Regs(n) == [k \in 1..3 |-> XIdent(n)]
EpStart(i) == Trace[i].op = "Start"
TraceInit == \E i \in 1..NT : EpStart(i) /\ l = i /\ xs = Regs(Trace[i].n)
More == l > 0 /\ l < NT /\ ~EpStart(l + 1)
TraceNext ==
  \/ More /\ StepOK /\ l' = l + 1
  \/ /\ More
     /\ ~ENABLED (StepOK /\ l' = l + 1)
     /\ Bad(l + 1)
     /\ l' = -l - 1 /\ UNCHANGED xs
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=================================================================================
