------------------------------- MODULE PermTrace -------------------------------
EXTENDS Perm, TraceKit
VARIABLE l
tvars == <<pm, l>>
E == Trace[l + 1]
S == E.s

Act ==
  CASE E.op = "SetIdentity" -> SetIdentity(S)
    [] E.op \in {"SetRowSources", "SetColDestinations"} -> SetRowSources(S, E.q)
    [] E.op \in {"SetColSources", "SetRowDestinations"} -> SetColSources(S, E.q)
    [] E.op = "SwapRows"  -> SwapRows(S, E.a, E.b)
    [] E.op = "SwapCols"  -> SwapCols(S, E.a, E.b)
    [] E.op = "Transpose" -> Transpose(S)
    [] E.op = "Sign"      -> GetSign(S) /\ E.ret = Sign(pm[S].src)
    [] E.op = "Copy"      -> Copy(S, E.t)
    [] E.op \in {"TransposeOf", "InvOf"} -> TransposeOf(S, E.t)
    [] E.op = "Mul"       -> Mul(S, E.t, E.u)
    [] E.op = "Apply"     -> /\ UNCHANGED pm
         \* P*M takes its rows from the row sources; M*P sends column i to src[i]; the in-place forms agree
         /\ LET p == pm[S].src n == Len(p) IN
              /\ \A i \in 1..n : E.pm[i] = E.m[p[i] + 1]
              /\ \A r \in 1..n : \A i \in 1..n : E.mp[r][p[i] + 1] = E.mt[r][i]
              /\ \A i \in 1..n : E.moved[i] = E.seq[p[i] + 1]
              /\ E.left = Ident(n)
              /\ E.sgn = Sign(p)
              \* column vectors move like rows, row vectors like columns
              /\ \A k \in 1..Len(E.pv) : E.pv[k] = [i \in 1..n |-> E.v[p[i] + 1]]
              /\ \A k \in 1..Len(E.vp) : \A i \in 1..n : E.vp[k][p[i] + 1] = E.v[i]
              /\ \A k \in 1..Len(E.pa) : E.pa[k] = [i \in 1..n |-> E.A[k][p[i] + 1]]
              /\ \A k \in 1..Len(E.bp) : \A r \in 1..Len(E.B[k]) : \A i \in 1..n : E.bp[k][r][p[i] + 1] = E.B[k][r][i]
    [] OTHER -> FALSE

Seen == (E.same = (pm'[1].src = pm'[2].src)) /\ (E.differ = ~E.same) /\ \A s \in Slots :
  LET o == E.st[s] p == pm'[s].src n == Len(p) IN
    /\ o.rs = p /\ o.cd = p
    /\ o.cs = Inverse(p) /\ o.rd = Inverse(p)
    /\ \A r \in 1..n : \A c \in 1..n : o.m[r][c] = (IF p[r] = c - 1 THEN 1 ELSE 0)
    /\ o.rows = n /\ o.cols = n

StepOK == Act /\ Seen
EpStart(i) == Trace[i].op = "Reset"
TraceInit == \E i \in 1..NT : EpStart(i) /\ l = i /\ pm = [s \in Slots |-> Obj(Ident(Trace[i].n), 1)]
More == l > 0 /\ l < NT /\ ~EpStart(l + 1)
TraceNext ==
  \/ More /\ StepOK /\ l' = l + 1
  \/ /\ More
     /\ ~ENABLED (StepOK /\ l' = l + 1)
     /\ Bad(l + 1)
     /\ l' = -l - 1 /\ UNCHANGED pm
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================
