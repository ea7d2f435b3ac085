------------------------------ MODULE SmallArray ------------------------------
(* SmallStorage<T,N> as it is built: raw cells, the first `size` of them live,   *)
(* inside the object up to N and on the heap beyond.  Checked to refine          *)
(* SeqContainer; its transition graph supplies the walks that are replayed.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, N, Vals, MaxCap, Hole

VARIABLES o, act
vars == <<o, act>>
View == o

Mx(a, b) == IF a >= b THEN a ELSE b
Mn(a, b) == IF a <= b THEN a ELSE b
Absent == [on |-> FALSE, cap |-> 0, size |-> 0, cell |-> <<>>]
Packed(q, c) == [on |-> TRUE, cap |-> c, size |-> Len(q),
                 cell |-> [i \in 0..(c - 1) |-> IF i < Len(q) THEN q[i + 1] ELSE Hole]]
ItemsOf(r) == [i \in 1..r.size |-> r.cell[i - 1]]
Dyn(r) == r.cap > N
Grown(r, k) == IF k > r.cap THEN Packed(ItemsOf(r), Mx(2 * r.cap, k)) ELSE r

Did(op, s, t, k) == act' = [op |-> op, s |-> s, t |-> t, k |-> k]

Init == o = [s \in Slots |-> Absent] /\ act = [op |-> "Init", s |-> 0, t |-> 0, k |-> 0]

New(s) == ~o[s].on /\ o' = [o EXCEPT ![s] = Packed(<<>>, N)] /\ Did("New", s, s, 0)
\* the constructors that take contents (from an array, a count, a fill value, a list)
NewWith(op, s, k, v) ==
  /\ ~o[s].on
  /\ o' = [o EXCEPT ![s] = Packed([i \in 1..k |-> v], Mx(k, N))]
  /\ Did(op, s, s, k)
CopyCtor(s, t) == /\ ~o[s].on /\ o[t].on
                  /\ o' = [o EXCEPT ![s] = Packed(ItemsOf(o[t]), Mx(o[t].size, N))]
                  /\ Did("CopyCtor", s, t, 0)
MoveCtor(s, t) == /\ ~o[s].on /\ o[t].on
                  /\ o' = [o EXCEPT ![s] = o[t], ![t] = Packed(<<>>, N)]
                  /\ Did("MoveCtor", s, t, 0)
Destroy(s) == o[s].on /\ o' = [o EXCEPT ![s] = Absent] /\ Did("Destroy", s, s, 0)
CopyAssign(s, t) ==
  /\ o[s].on /\ o[t].on
  /\ o' = IF s = t THEN o
          ELSE [o EXCEPT ![s] = Packed(ItemsOf(o[t]), IF @.cap < o[t].size THEN Mn(o[t].cap, 2 * o[t].size) ELSE @.cap)]
  /\ Did("CopyAssign", s, t, 0)
MoveAssign(s, t) ==
  /\ o[s].on /\ o[t].on
  /\ o' = IF s = t THEN o ELSE [o EXCEPT ![s] = o[t], ![t] = Packed(<<>>, N)]
  /\ Did("MoveAssign", s, t, 0)
PushBack(op, s, v) ==
  /\ o[s].on
  /\ LET r == Grown(o[s], o[s].size + 1) IN
       o' = [o EXCEPT ![s] = [r EXCEPT !.cell[r.size] = v, !.size = @ + 1]]
  /\ Did(op, s, s, v)
PopBack(s) ==
  /\ o[s].on
  /\ o' = IF o[s].size = 0 THEN o
          ELSE [o EXCEPT ![s] = [@ EXCEPT !.cell[o[s].size - 1] = Hole, !.size = @ - 1]]
  /\ Did("PopBack", s, s, 0)
Reserve(s, k) == o[s].on /\ o' = [o EXCEPT ![s] = Grown(@, k)] /\ Did("Reserve", s, s, k)
Resize(op, s, k, v) ==
  /\ o[s].on
  /\ LET r == Grown(o[s], k) IN
       o' = [o EXCEPT ![s] = Packed([i \in 1..k |-> IF i <= r.size THEN r.cell[i - 1] ELSE v], r.cap)]
  /\ Did(op, s, s, k)
Clear(s) == o[s].on /\ o' = [o EXCEPT ![s] = Packed(<<>>, @.cap)] /\ Did("Clear", s, s, 0)
Eq(s, t) == o[s].on /\ o[t].on /\ UNCHANGED o /\ Did("Eq", s, t, 0)

Next ==
  \/ \E s \in Slots :
       \/ New(s) \/ Destroy(s) \/ PopBack(s) \/ Clear(s)
       \/ \E k \in 0..MaxCap, v \in Vals :
            \/ NewWith("NewFrom", s, k, v) \/ NewWith("NewFill", s, k, v) \/ NewWith("NewCount", s, k, v)
            \/ (k <= 3 /\ NewWith("NewList", s, k, v))
            \/ Reserve(s, k) \/ Resize("Resize", s, k, v) \/ Resize("ResizeDefault", s, k, v)
       \/ \E v \in Vals : PushBack("PushBack", s, v) \/ PushBack("Emplace", s, v)
       \/ \E t \in Slots : CopyCtor(s, t) \/ MoveCtor(s, t) \/ CopyAssign(s, t) \/ MoveAssign(s, t) \/ Eq(s, t)

Spec == Init /\ [][Next]_vars
Bounded == \A s \in Slots : o[s].cap <= MaxCap

CellsOK == \A s \in Slots : LET r == o[s] IN r.on =>
            /\ r.cap >= Mx(N, r.size)
            /\ \A i \in 0..(r.cap - 1) : (r.cell[i] # Hole) <=> (i < r.size)

Box == [s \in Slots |-> [on |-> o[s].on, items |-> ItemsOf(o[s]), cap |-> o[s].cap]]
Abs == INSTANCE SeqContainer WITH box <- Box

AbsAct ==
  LET a == act'  C == Box'[a.s].cap  D == Box'[a.t].cap IN
  CASE a.op = "New"        -> Abs!New(a.s)
    [] a.op \in {"NewFrom", "NewFill", "NewCount", "NewList"} ->
         Len(Box'[a.s].items) = a.k /\ Abs!NewFrom(a.s, Box'[a.s].items, C)
    [] a.op = "CopyCtor"   -> Abs!CopyCtor(a.s, a.t, C)
    [] a.op = "MoveCtor"   -> Abs!MoveCtor(a.s, a.t, C, D)
    [] a.op = "Destroy"    -> Abs!Destroy(a.s)
    [] a.op = "CopyAssign" -> Abs!CopyAssign(a.s, a.t, C)
    [] a.op = "MoveAssign" -> IF a.s = a.t THEN Abs!SelfMove(a.s, Box'[a.s].items, C)
                                           ELSE Abs!MoveAssign(a.s, a.t, C, D)
    [] a.op \in {"PushBack", "Emplace"} -> Abs!PushBack(a.s, a.k, C)
    [] a.op = "PopBack"    -> Abs!PopBack(a.s)
    [] a.op = "Reserve"    -> Abs!Reserve(a.s, a.k, C)
    [] a.op \in {"Resize", "ResizeDefault"} -> \E v \in Vals : Abs!Resize(a.s, a.k, v, C)
    [] a.op = "Clear"      -> Abs!Clear(a.s)
    [] a.op = "Eq"         -> Abs!Look
    [] OTHER -> FALSE
Refines == [][AbsAct]_vars

Ctl(x) == [s \in Slots |-> <<x[s].on, x[s].cap, x[s].size>>]
Emit == Bounded' => PrintT(ToJson([p |-> Ctl(o), a |-> act', q |-> Ctl(o')]))
=============================================================================
