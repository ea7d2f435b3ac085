-------------------------------- MODULE Store ----------------------------------
(* Arrays and the objects which hold them, under four policies of ownership:         *)
(*   "shared"  holders of one array share it; it goes with its last holder            *)
(*   "own"     every holder has an array of its own, duplicated on copying            *)
(*   "local"   the same, and the array lies in the holder: moving is copying          *)
(*   "wrap"    the array is the caller's; holders share it and never let it go        *)
(* A state is a pair [hold |-> holder -> block (0: no such holder, -1: moved from),   *)
(* mem |-> block -> contents, of the blocks which are allocated].                     *)
EXTENDS Integers, Sequences, FiniteSets

Blocks(st) == DOMAIN st.mem
Live(st, h) == st.hold[h] > 0
Vals(st, h) == st.mem[st.hold[h]]
Holders(st, b) == {h \in DOMAIN st.hold : st.hold[h] = b}
\* the blocks which nobody holds go, except the caller's
Sweep(kind, st) == IF kind = "wrap" THEN st
                   ELSE [st EXCEPT !.mem = [b \in {x \in DOMAIN st.mem : Holders(st, x) # {}} |-> st.mem[b]]]
Fresh(st) == CHOOSE b \in 1..(Cardinality(Blocks(st)) + 1) : b \notin Blocks(st)
Alloc(st, vs) == [st EXCEPT !.mem = [b \in DOMAIN @ \cup {Fresh(st)} |-> IF b = Fresh(st) THEN vs ELSE @[b]]]

\* h becomes the holder of a new array
Make(kind, st, h, vs) == Sweep(kind, [Alloc(st, vs) EXCEPT !.hold[h] = Fresh(st)])
\* h, whatever it was, becomes a copy of g
Copy(kind, st, h, g) ==
  IF h = g THEN st
  ELSE IF kind \in {"shared", "wrap"} THEN Sweep(kind, [st EXCEPT !.hold[h] = st.hold[g]])
  ELSE Make(kind, st, h, Vals(st, g))
\* h takes over what g holds; g keeps nothing that can be told
Move(kind, st, h, g) ==
  IF kind = "own" \/ kind = "shared" THEN Sweep(kind, [st EXCEPT !.hold[h] = st.hold[g], !.hold[g] = -1])
  ELSE Copy(kind, st, h, g)
Write(st, h, i, v) == [st EXCEPT !.mem[st.hold[h]][i] = v]
Drop(kind, st, h) == Sweep(kind, [st EXCEPT !.hold[h] = 0])

RECURSIVE SumLen(_, _)
SumLen(m, S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN Len(m[b]) + SumLen(m, S \ {b})
Elements(st) == SumLen(st.mem, DOMAIN st.mem)
===================================================================================
