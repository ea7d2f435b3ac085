----------------------------- MODULE SeqContainer -----------------------------
(* The abstract meaning of geomc's owning sequence containers, Deque<T,N> and   *)
(* SmallStorage<T,N>: a handful of named container objects ("slots"), each      *)
(* either not constructed or holding a sequence of values and a capacity.       *)
(* Every public member function is one action.  Capacity is underspecified on   *)
(* purpose: an action that must make room picks any capacity that suffices; one *)
(* that has room must leave the capacity (and hence the storage) alone.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots,      \* names of container objects
          N           \* static capacity of the type

VARIABLE box          \* [Slots -> [on |-> BOOLEAN, items |-> Seq(value), cap |-> Nat]]

Absent == [on |-> FALSE, items |-> <<>>, cap |-> 0]
Obj(q, c) == [on |-> TRUE, items |-> q, cap |-> c]

On(s)    == box[s].on
Items(s) == box[s].items
Cap(s)   == box[s].cap
Len1(s)  == Len(box[s].items)

Max(a, b) == IF a >= b THEN a ELSE b

SeqInit == box = [s \in Slots |-> Absent]

\* ---- construction and destruction ----
New(s)           == ~On(s) /\ box' = [box EXCEPT ![s] = Obj(<<>>, N)]
NewCap(s, k, c)  == ~On(s) /\ c >= Max(k, N) /\ box' = [box EXCEPT ![s] = Obj(<<>>, c)]
NewFrom(s, q, c) == ~On(s) /\ c >= Max(Len(q), N) /\ box' = [box EXCEPT ![s] = Obj(q, c)]
CopyCtor(s, t, c) == ~On(s) /\ On(t) /\ c >= Max(Len1(t), N)
                     /\ box' = [box EXCEPT ![s] = Obj(Items(t), c)]
MoveCtor(s, t, c, d) == ~On(s) /\ On(t) /\ c >= Max(Len1(t), N) /\ d >= N
                     /\ box' = [box EXCEPT ![s] = Obj(Items(t), c), ![t] = Obj(<<>>, d)]
Destroy(s)       == On(s) /\ box' = [box EXCEPT ![s] = Absent]

\* ---- assignment ----
CopyAssign(s, t, c) == On(s) /\ On(t) /\ c >= Max(Len1(t), N)
                     /\ (s = t => c = Cap(s))
                     /\ box' = [box EXCEPT ![s] = Obj(Items(t), c)]
MoveAssign(s, t, c, d) == On(s) /\ On(t) /\ s # t /\ c >= Max(Len1(t), N) /\ d >= N
                     /\ box' = [box EXCEPT ![s] = Obj(Items(t), c), ![t] = Obj(<<>>, d)]
\* moving an object onto itself may lose its contents (nothing promises otherwise) but must leave a valid object
SelfMove(s, q, c) == On(s) /\ q \in {Items(s), <<>>} /\ c >= Max(Len(q), N)
                     /\ box' = [box EXCEPT ![s] = Obj(q, c)]

\* ---- growth ----
RoomFor(s, k, c) == IF k <= Cap(s) THEN c = Cap(s) ELSE c >= k
PushBack(s, v, c)  == On(s) /\ RoomFor(s, Len1(s) + 1, c)
                     /\ box' = [box EXCEPT ![s] = Obj(Append(Items(s), v), c)]
PushFront(s, v, c) == On(s) /\ RoomFor(s, Len1(s) + 1, c)
                     /\ box' = [box EXCEPT ![s] = Obj(<<v>> \o Items(s), c)]
Reserve(s, k, c)   == On(s) /\ RoomFor(s, k, c) /\ box' = [box EXCEPT ![s].cap = c]
Resize(s, k, v, c) == On(s) /\ RoomFor(s, k, c)
                     /\ box' = [box EXCEPT ![s] = Obj([i \in 1..k |-> IF i <= Len1(s) THEN Items(s)[i] ELSE v], c)]

\* ---- removal ----
PopBack(s)  == On(s) /\ box' = [box EXCEPT ![s].items = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
PopFront(s) == On(s) /\ box' = [box EXCEPT ![s].items = IF @ = <<>> THEN @ ELSE Tail(@)]
Clear(s)    == On(s) /\ box' = [box EXCEPT ![s].items = <<>>]

\* ---- element access ----
SetAt(s, i, v) == On(s) /\ i \in 0..(Len1(s) - 1) /\ box' = [box EXCEPT ![s].items[i + 1] = v]
Look           == UNCHANGED box

\* ---- invariants of the abstraction ----
TotalItems == LET RECURSIVE sum(_)
                  sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len1(x) + sum(S \ {x})
              IN sum(Slots)
CapOK == \A s \in Slots : On(s) => Cap(s) >= Max(N, Len1(s))
=============================================================================
