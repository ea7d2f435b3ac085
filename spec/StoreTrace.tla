-------------------------------- MODULE StoreTrace ----------------------------------
(* Recorded histories of storage objects against module Store.                        *)
EXTENDS Store, TraceKit
VARIABLES kind, st, l
tvars == <<kind, st, l>>
E == Trace[l + 1]
Same == UNCHANGED <<kind, st>>
To(s2) == st' = s2 /\ UNCHANGED kind
Zero(n) == [i \in 1..n |-> 0]
H(s) == DOMAIN s.hold
LiveIn == {h \in H(st) : Live(st, h)}
Shown(h) == \E j \in DOMAIN E.all : E.all[j].h = h
Mixed(now, a, b) == Len(now) \in {Len(a), Len(b)} /\
  \A i \in DOMAIN now : now[i] \in {0} \cup {a[j] : j \in DOMAIN a} \cup {b[j] : j \in DOMAIN b}

Act ==
  CASE E.op = "New"  -> kind' = E.kind /\ st' = [hold |-> [h \in 1..E.nh |-> 0], mem |-> [b \in {} |-> <<>>]]
    \* n elements, as their type makes them
    [] E.op = "Make" -> st.hold[E.h] = 0 /\ To(Make(kind, st, E.h, Zero(E.n)))
    [] E.op = "From" -> st.hold[E.h] = 0 /\ To(Make(kind, st, E.h, E.src))
    [] E.op = "Copy" -> /\ To(Copy(kind, st, E.h, E.g))
                        /\ (kind \in {"shared", "wrap"} => E.copies = 0)
    [] E.op = "Move" -> /\ To(Move(kind, st, E.h, E.g))
                        /\ (kind # "local" => E.copies = 0)
    [] E.op = "Write" -> To(Write(st, E.h, E.i, E.v))
    [] E.op = "Drop" -> To(Drop(kind, st, E.h))
    \* nothing was made
    [] E.op = "MakeFail" -> Same
    [] E.op = "AssignFail" ->
         /\ IF E.why = "alloc" THEN E.now = Vals(st, E.h) ELSE Mixed(E.now, Vals(st, E.h), Vals(st, E.g))
         /\ To([st EXCEPT !.mem[st.hold[E.h]] = E.now])
    [] E.op = "View" ->
         /\ Same
         /\ \A h \in LiveIn : Shown(h)
         /\ \A j \in DOMAIN E.all : LET r == E.all[j]
                                    IN  /\ Live(st, r.h) /\ r.vals = Vals(st, r.h) /\ r.cvals = r.vals
                                        /\ r.size = Len(r.vals)
         /\ {E.one[j] : j \in DOMAIN E.one} =
              {p \in LiveIn \X LiveIn : p[1] < p[2] /\ st.hold[p[1]] = st.hold[p[2]] /\ Len(Vals(st, p[1])) > 0}
         /\ ((\A h \in H(st) : st.hold[h] >= 0) => E.live = Elements(st) /\ E.arrays <= Cardinality(Blocks(st)))
    [] E.op = "Dim" -> Same /\ E.ret = (IF E.n = 0 THEN E.v ELSE E.n) /\ E.bytes = (IF E.n = 0 THEN 1 ELSE 0)
    [] OTHER -> FALSE
StepOK == "nan" \notin DOMAIN E /\ Act

EpStart(i) == Trace[i].op = "Reset"
TraceInit == \E i \in 1..NT : EpStart(i) /\ l = i /\ kind = "" /\ st = [hold |-> <<>>, mem |-> [b \in {} |-> <<>>]]
More == l > 0 /\ l < NT /\ ~EpStart(l + 1)
TraceNext ==
  \/ More /\ StepOK /\ l' = l + 1
  \/ /\ More
     /\ ~ENABLED (StepOK /\ l' = l + 1)
     /\ Bad(l + 1)
     /\ l' = -l - 1 /\ UNCHANGED <<kind, st>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
===================================================================================
