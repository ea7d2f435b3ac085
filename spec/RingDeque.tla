------------------------------- MODULE RingDeque -------------------------------
(* Deque<T,N> as it is built: a ring of raw cells with a head and a size, held   *)
(* in the object itself up to N items and on the heap beyond that.  Checked to   *)
(* refine SeqContainer; its transition graph supplies the walks that are         *)
(* replayed on the real class.                                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots, N, Vals, MaxCap, Hole

VARIABLES o,     \* [Slots -> [on, cap, head, size, cell]]
          act    \* the call that led here (not part of the state's identity)
vars == <<o, act>>
View == o

Mx(a, b) == IF a >= b THEN a ELSE b
Cells(c) == [i \in 0..(c - 1) |-> Hole]
Absent   == [on |-> FALSE, cap |-> 0, head |-> 0, size |-> 0, cell |-> <<>>]
Empty(c) == [on |-> TRUE, cap |-> c, head |-> 0, size |-> 0, cell |-> Cells(c)]

At(r, i)    == (r.head + i) % r.cap
ItemsOf(r)  == [i \in 1..r.size |-> r.cell[At(r, i - 1)]]
Dyn(r)      == r.cap > N
\* a fresh ring of capacity c whose first cells hold q
Packed(q, c) == [on |-> TRUE, cap |-> c, head |-> 0, size |-> Len(q),
                 cell |-> [i \in 0..(c - 1) |-> IF i < Len(q) THEN q[i + 1] ELSE Hole]]
Grown(r, k) == IF k > r.cap THEN Packed(ItemsOf(r), Mx(2 * r.cap, k)) ELSE r

Did(op, s, t, k) == act' = [op |-> op, s |-> s, t |-> t, k |-> k]

Init == o = [s \in Slots |-> Absent] /\ act = [op |-> "Init", s |-> 0, t |-> 0, k |-> 0]

New(s) == /\ ~o[s].on /\ o' = [o EXCEPT ![s] = Empty(N)] /\ Did("New", s, s, 0)
NewCap(s, k) == /\ ~o[s].on /\ o' = [o EXCEPT ![s] = Empty(Mx(k, N))] /\ Did("NewCap", s, s, k)
CopyCtor(s, t) == /\ ~o[s].on /\ o[t].on
                  /\ o' = [o EXCEPT ![s] = Packed(ItemsOf(o[t]), IF o[t].size > N THEN o[t].cap ELSE N)]
                  /\ Did("CopyCtor", s, t, 0)
MoveCtor(s, t) == /\ ~o[s].on /\ o[t].on
                  /\ o' = [o EXCEPT ![s] = IF Dyn(o[t]) THEN o[t] ELSE Packed(ItemsOf(o[t]), o[t].cap),
                                    ![t] = Empty(N)]
                  /\ Did("MoveCtor", s, t, 0)
Destroy(s) == /\ o[s].on /\ o' = [o EXCEPT ![s] = Absent] /\ Did("Destroy", s, s, 0)
CopyAssign(s, t) ==
  /\ o[s].on /\ o[t].on
  /\ LET r == Grown(o[s], o[t].size)  q == ItemsOf(o[t]) IN
       o' = [o EXCEPT ![s] = IF s = t THEN @ ELSE
               [r EXCEPT !.size = Len(q),
                         !.cell = [i \in 0..(r.cap - 1) |->
                             LET j == (i - r.head + r.cap) % r.cap IN IF j < Len(q) THEN q[j + 1] ELSE Hole]]]
  /\ Did("CopyAssign", s, t, 0)
MoveAssign(s, t) ==
  /\ o[s].on /\ o[t].on
  /\ o' = IF s = t THEN o
          ELSE [o EXCEPT ![s] = IF Dyn(o[t]) THEN o[t] ELSE Packed(ItemsOf(o[t]), @.cap), ![t] = Empty(N)]
  /\ Did("MoveAssign", s, t, 0)
PushBack(s, v) ==
  /\ o[s].on
  /\ LET r == Grown(o[s], o[s].size + 1) IN
       o' = [o EXCEPT ![s] = [r EXCEPT !.cell[At(r, r.size)] = v, !.size = @ + 1]]
  /\ Did("PushBack", s, s, v)
PushFront(s, v) ==
  /\ o[s].on
  /\ LET r == Grown(o[s], o[s].size + 1)  h == (r.head + r.cap - 1) % r.cap IN
       o' = [o EXCEPT ![s] = [r EXCEPT !.cell[h] = v, !.head = h, !.size = @ + 1]]
  /\ Did("PushFront", s, s, v)
PopFront(s) ==
  /\ o[s].on
  /\ o' = IF o[s].size = 0 THEN o
          ELSE [o EXCEPT ![s] = [@ EXCEPT !.cell[o[s].head] = Hole, !.head = (@ + 1) % o[s].cap, !.size = @ - 1]]
  /\ Did("PopFront", s, s, 0)
PopBack(s) ==
  /\ o[s].on
  /\ o' = IF o[s].size = 0 THEN o
          ELSE [o EXCEPT ![s] = [@ EXCEPT !.cell[At(o[s], o[s].size - 1)] = Hole, !.size = @ - 1]]
  /\ Did("PopBack", s, s, 0)
Reserve(s, k) == /\ o[s].on /\ o' = [o EXCEPT ![s] = Grown(@, k)] /\ Did("Reserve", s, s, k)
Clear(s) == /\ o[s].on /\ o' = [o EXCEPT ![s] = Empty(@.cap)] /\ Did("Clear", s, s, 0)
Eq(s, t) == /\ o[s].on /\ o[t].on /\ UNCHANGED o /\ Did("Eq", s, t, 0)

Next ==
  \/ \E s \in Slots :
       \/ New(s) \/ Destroy(s) \/ PopFront(s) \/ PopBack(s) \/ Clear(s)
       \/ \E k \in 1..MaxCap : NewCap(s, k) \/ Reserve(s, k)
       \/ \E v \in Vals : PushBack(s, v) \/ PushFront(s, v)
       \/ \E t \in Slots : CopyCtor(s, t) \/ MoveCtor(s, t) \/ CopyAssign(s, t) \/ MoveAssign(s, t) \/ Eq(s, t)

Spec == Init /\ [][Next]_vars

Bounded == \A s \in Slots : o[s].cap <= MaxCap

\* ---- the ring is well formed
RingOK == \A s \in Slots : LET r == o[s] IN r.on =>
            /\ r.cap >= Mx(N, r.size)
            /\ r.cap > 0 => r.head \in 0..(r.cap - 1)
            \* a cell is occupied exactly when it lies in the live window
            /\ \A i \in 0..(r.cap - 1) : (r.cell[i] # Hole) <=> ((i - r.head + r.cap) % r.cap < r.size)

\* ---- refinement: every ring step is the abstract step of the same name
Box == [s \in Slots |-> [on |-> o[s].on, items |-> ItemsOf(o[s]), cap |-> o[s].cap]]
Abs == INSTANCE SeqContainer WITH box <- Box

AbsAct ==
  LET a == act'  C == Box'[a.s].cap  D == Box'[a.t].cap IN
  CASE a.op = "New"        -> Abs!New(a.s)
    [] a.op = "NewCap"     -> Abs!NewCap(a.s, a.k, C)
    [] a.op = "CopyCtor"   -> Abs!CopyCtor(a.s, a.t, C)
    [] a.op = "MoveCtor"   -> Abs!MoveCtor(a.s, a.t, C, D)
    [] a.op = "Destroy"    -> Abs!Destroy(a.s)
    [] a.op = "CopyAssign" -> Abs!CopyAssign(a.s, a.t, C)
    [] a.op = "MoveAssign" -> IF a.s = a.t THEN Abs!SelfMove(a.s, Box'[a.s].items, C)
                                           ELSE Abs!MoveAssign(a.s, a.t, C, D)
    [] a.op = "PushBack"   -> Abs!PushBack(a.s, a.k, C)
    [] a.op = "PushFront"  -> Abs!PushFront(a.s, a.k, C)
    [] a.op = "PopBack"    -> Abs!PopBack(a.s)
    [] a.op = "PopFront"   -> Abs!PopFront(a.s)
    [] a.op = "Reserve"    -> Abs!Reserve(a.s, a.k, C)
    [] a.op = "Clear"      -> Abs!Clear(a.s)
    [] a.op = "Eq"         -> Abs!Look
    [] OTHER -> FALSE
Refines == [][AbsAct]_vars

\* ---- the transition graph, for replay
Ctl(x) == [s \in Slots |-> <<x[s].on, x[s].cap, x[s].head, x[s].size>>]
Emit == Bounded' => PrintT(ToJson([p |-> Ctl(o), a |-> act', q |-> Ctl(o')]))
=============================================================================
