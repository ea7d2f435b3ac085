------------------------------- MODULE IterTrace -------------------------------
(* Judges grid iterators and every way of walking over or writing to a matrix.    *)
EXTENDS Grid, TraceKit

VARIABLE l

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

GridOk(e) ==
    LET ax == Axes(Len(e.lo), e.first)
        vol == Volume(e.lo, e.hi, ax)
        at == Ord(e.lo, e.hi, ax, e.at)
        to == CASE e.did = "inc" -> at + 1
                [] e.did = "dec" -> at - 1
                [] e.did = "add" -> at + e.n
                [] e.did = "sub" -> at - e.n
                [] e.did = "begin" -> 0
                [] e.did = "end" -> vol
    IN  /\ e.pt = PointAt(e.lo, e.hi, ax, to)
        /\ e.frombegin = to /\ e.toend = vol - to /\ e.moved = to - at
        /\ e.iseq = (to = at) /\ e.isend = (to = vol)
        /\ e.lt = (to < at) /\ e.gt = (to > at)

(* all points in order *)
SweepOk(e) ==
    LET ax == Axes(Len(e.lo), e.first)
        vol == Volume(e.lo, e.hi, ax)
        all == [k \in 1..vol |-> PointAt(e.lo, e.hi, ax, k - 1)]
    IN  e.fwd = all /\ e.rev = Rev(all) /\ e.size = vol

(* e.m is the matrix as rows of cells *)
At(e, k) == LET c == Cell(e.cols, k) IN e.m[c[1] + 1][c[2] + 1]
RegionOk(e, g) ==
    LET vol == Volume(g.lo, g.hi, <<2, 1>>)
    IN  /\ Len(g.seq) = vol /\ g.size = vol
        /\ \A k \in 1..vol :
             LET p == PointAt(g.lo, g.hi, <<2, 1>>, k - 1)
             IN  g.seq[k] = e.m[p[1] + 1][p[2] + 1] /\ g.pts[k] = p
ReadOk(e) ==
    LET size == e.rows * e.cols
        all == [k \in 1..size |-> At(e, k - 1)]
    IN  /\ Len(e.m) = e.rows /\ \A r \in 1..e.rows : Len(e.m[r]) = e.cols
        /\ e.fwd = all /\ e.rev = Rev(all) /\ e.idx = all /\ e.size = size
        /\ e.byrow = e.m /\ e.bracket = e.m
        /\ Len(e.bycol) = e.cols
        /\ \A c \in 1..e.cols : e.bycol[c] = [r \in 1..e.rows |-> e.m[r][c]]
        /\ \A i \in 1..Len(e.regions) : RegionOk(e, e.regions[i])
(* where the values were put: op() agrees with what was set *)
SetOk(e) == e.m = e.want
IdentityOk(e) == e.m = [r \in 1..e.rows |-> [c \in 1..e.cols |-> IF r = c THEN 1 ELSE 0]]
ConstOk(e) == e.m = [r \in 1..e.rows |-> [c \in 1..e.cols |-> e.k]]
(* row- or column-major order of the bare data *)
DataOk(e) ==
    /\ Len(e.data) = e.rows * e.cols
    /\ \A r \in 1..e.rows, c \in 1..e.cols :
          e.data[IF e.rowmajor THEN (r - 1) * e.cols + c ELSE (c - 1) * e.rows + r] = e.m[r][c]
(* an assignment through one element changes that element alone *)
WriteOk(e) ==
    LET c == e.cell IN e.after = [e.before EXCEPT ![c[1] + 1][c[2] + 1] = e.x]
TransposeOk(e) ==
    /\ e.trows = e.cols /\ e.tcols = e.rows
    /\ e.t = [c \in 1..e.cols |-> [r \in 1..e.rows |-> e.m[r][c]]]
DistOk(e) == e.d = e.j - e.i /\ e.lt = (e.i < e.j) /\ e.eq = (e.i = e.j) /\ e.v = At(e, e.j)

(* places in rows and columns: equal just when they are one cell; apart by the     *)
(* cells between them in one line                                                  *)
LineOk(e) ==
    LET same == e.a = e.b IN
    /\ e.coleq = same /\ e.colne = ~same /\ e.roweq = same /\ e.rowne = ~same
    /\ (e.a[2] = e.b[2] => e.cold = e.b[1] - e.a[1])
    /\ (e.a[1] = e.b[1] => e.rowd = e.b[2] - e.a[2])
    /\ e.back = e.first

MyOk(e) ==
    CASE e.op = "grid" -> GridOk(e)
      [] e.op = "sweep" -> SweepOk(e)
      [] e.op = "read" -> ReadOk(e)
      [] e.op = "set" -> SetOk(e)
      [] e.op = "identity" -> IdentityOk(e)
      [] e.op = "const" -> ConstOk(e)
      [] e.op = "data" -> DataOk(e)
      [] e.op = "write" -> WriteOk(e)
      [] e.op = "transpose" -> TransposeOk(e)
      [] e.op = "dist" -> DistOk(e)
      [] e.op = "line" -> LineOk(e)

F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
================================================================================
