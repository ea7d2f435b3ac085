------------------------------- MODULE SeqTrace -------------------------------
(* Decides recorded histories of real containers against SeqContainer.          *)
(* An event carries the call, its arguments and result, and the whole           *)
(* observable state of every slot after the call.  One chain of states per      *)
(* history; the position l is the last event consumed.                          *)
EXTENDS SeqContainer, TraceKit

CONSTANT Aspect   \* "sequence": contents, results, capacity;  "lifetime": element objects

VARIABLE l
tvars == <<box, l>>

E == Trace[l + 1]                     \* the event being explained
S == E.s
C == E.st[S].cap                      \* capacity observed after the call
CT == E.st[E.t].cap

\* the spec action an event stands for, with its logged arguments
Act ==
  CASE E.op = "New"        -> New(S)
    [] E.op = "NewCap"     -> NewCap(S, E.k, C)
    [] E.op \in {"NewFrom", "NewCount", "NewFill", "NewList"} -> NewFrom(S, E.q, C)
    [] E.op = "CopyCtor"   -> CopyCtor(S, E.t, C)
    [] E.op = "MoveCtor"   -> MoveCtor(S, E.t, C, CT)
    [] E.op = "Destroy"    -> Destroy(S)
    [] E.op = "CopyAssign" -> CopyAssign(S, E.t, C)
    [] E.op = "MoveAssign" -> IF S = E.t THEN SelfMove(S, E.st[S].items, C) ELSE MoveAssign(S, E.t, C, CT)
    [] E.op \in {"PushBack", "Emplace"} -> PushBack(S, E.v, C)
    [] E.op = "PushFront"  -> PushFront(S, E.v, C)
    [] E.op = "PopBack"    -> PopBack(S)
    [] E.op = "PopFront"   -> PopFront(S)
    [] E.op = "Reserve"    -> Reserve(S, E.k, C)
    [] E.op \in {"Resize", "ResizeDefault"} -> Resize(S, E.k, E.v, C)
    [] E.op = "Clear"      -> Clear(S)
    [] E.op = "Set"        -> SetAt(S, E.i, E.v)
    [] E.op = "Eq"         -> Look
    [] OTHER               -> FALSE

\* what the call returned
Ret ==
  CASE E.op \in {"PushBack", "PushFront", "Emplace"} -> E.ret = E.v
    [] E.op = "PopBack"  -> E.ret = (IF Items(S) = <<>> THEN -1 ELSE Items(S)[Len1(S)])
    [] E.op = "PopFront" -> E.ret = (IF Items(S) = <<>> THEN -1 ELSE Items(S)[1])
    [] E.op = "Eq"       -> E.ret = (Items(S) = Items(E.t)) /\ E.neq = ~E.ret
    [] OTHER -> TRUE

Repeat(q, k) == [i \in 1..(k * Len(q)) |-> q[((i - 1) % Len(q)) + 1]]

\* how the objects look afterwards, through every accessor
Seen ==
  /\ CapOK'
  /\ \A s \in Slots :
    LET o == E.st[s] b == box'[s] n == Len(b.items) IN
      /\ o.on = b.on
      /\ b.on =>
        /\ o.items = b.items
        /\ o.cap = b.cap
        /\ o.size = n
        /\ o.empty = (n = 0)
        /\ n > 0 => /\ o.front = b.items[1] /\ o.cfront = b.items[1]
                    /\ o.back = b.items[n]  /\ o.cback = b.items[n]
        \* indices beyond the ends wrap around: logged for -n-1 .. 2n (Deque)
        /\ \A j \in 1..Len(o.wrap) : o.wrap[j] = b.items[((2 * n + j - 2 - n) % n) + 1]
        \* iteration and data() agree with indexing (SmallStorage)
        /\ (Len(o.seq) > 0 \/ (n > 0 /\ Len(o.wrap) = 0)) => o.seq = Repeat(b.items, 4)

\* growth only when the announced capacity does not suffice
NoAlloc ==
  CASE E.op \in {"PushBack", "PushFront", "Emplace", "Reserve", "Resize", "ResizeDefault"} ->
           (C = Cap(S) => E.alloc = 0)
    [] E.op \in {"PopBack", "PopFront", "Clear", "Set", "Eq", "Destroy", "New", "MoveCtor", "MoveAssign"} -> E.alloc = 0
    [] E.op = "CopyAssign" -> (Len1(E.t) <= Cap(S) => E.alloc = 0)
    [] E.op = "CopyCtor"   -> (Len1(E.t) <= N => E.alloc = 0)
    [] E.op \in {"NewFrom", "NewCount", "NewFill", "NewList"} -> (Len(E.q) <= N => E.alloc = 0)
    [] E.op = "NewCap"     -> (E.k <= N => E.alloc = 0)
    [] OTHER -> TRUE

SequenceOK == Act /\ Ret /\ Seen /\ NoAlloc

\* element objects: alive exactly while some container holds them; nothing is built over,
\* destroyed twice, or used after its end
LifetimeOK ==
  /\ Act
  /\ \A s \in Slots : E.st[s].on = box'[s].on /\ (box'[s].on => E.st[s].size = Len(box'[s].items))
  /\ E.live = TotalItems'
  /\ E.faults = 0
  \* no storage outlives the last container
  /\ (\A s \in Slots : ~box'[s].on) => E.blocks = 0

StepOK == IF Aspect = "sequence" THEN SequenceOK ELSE LifetimeOK

EpStart(i) == Trace[i].op = "Reset"

TraceInit == /\ l \in {i \in 1..NT : EpStart(i)}
             /\ SeqInit

More == l > 0 /\ l < NT /\ ~EpStart(l + 1)

TraceNext ==
  \/ More /\ StepOK /\ l' = l + 1
  \/ /\ More
     /\ ~ENABLED (StepOK /\ l' = l + 1)
     /\ Bad(l + 1)
     /\ l' = -l - 1 /\ UNCHANGED box

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
