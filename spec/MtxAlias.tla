------------------------------- MODULE MtxAlias -------------------------------
(* How products and transpositions meet overlapping operands: the result goes to  *)
(* a temporary when the destination's storage overlaps an operand's, and is else  *)
(* written element by element while the operands are read.  TLC checks that the   *)
(* memory ends as if the operands had been read beforehand.                       *)
EXTENDS MtxMem, TLC

CONSTANTS NCells,     (* size of the memory *)
          Val         (* values of the cells *)

Shapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
Views == {v \in [base : 0..(NCells - 1), r : 1..2, c : 1..2, rm : BOOLEAN] :
            v.base + v.r * v.c <= NCells /\ (v.r = 1 \/ v.c = 1 => v.rm)}
VARIABLES op, mem, start, d, a, b, todo, tmp, direct
vars == <<op, mem, start, d, a, b, todo, tmp, direct>>

Want == CASE op = "mul" -> MMul(Window(start, a), Window(start, b))
          [] op = "transpose" -> Transp(Window(start, a))
Elem(m, i, j) == CASE op = "mul" -> SumTo([k \in 1..a.c |-> m[CellOf(a, i, k)] * m[CellOf(b, k, j)]], a.c)
                   [] op = "transpose" -> m[CellOf(a, j, i)]

Init == /\ mem \in [1..NCells -> Val] /\ start = mem
        /\ op \in {"mul", "transpose"}
        /\ d \in Views /\ a \in Views /\ b \in Views
        /\ IF op = "mul" THEN a.c = b.r /\ d.r = a.r /\ d.c = b.c
                         ELSE d.r = a.c /\ d.c = a.r /\ b = a
        /\ direct = ~(Overlap(d, a) \/ (op = "mul" /\ Overlap(d, b)))
        /\ todo = 1..(d.r * d.c) /\ tmp = [k \in 1..(d.r * d.c) |-> 0]
(* one more element, in order *)
Step == /\ todo # {}
        /\ LET k == CHOOSE x \in todo : \A y \in todo : x <= y
               i == ((k - 1) \div d.c) + 1
               j == ((k - 1) % d.c) + 1
           IN  /\ todo' = todo \ {k}
               /\ IF direct THEN mem' = [mem EXCEPT ![CellOf(d, i, j)] = Elem(mem, i, j)] /\ tmp' = tmp
                            ELSE tmp' = [tmp EXCEPT ![k] = Elem(mem, i, j)] /\ mem' = mem
        /\ UNCHANGED <<op, start, d, a, b, direct>>
CopyBack == /\ todo = {} /\ ~direct
            /\ mem' = Store(mem, d, Mat(d.r, d.c, LAMBDA i, j : tmp[(i - 1) * d.c + j]))
            /\ direct' = TRUE
            /\ UNCHANGED <<op, start, d, a, b, todo, tmp>>
Next == Step \/ CopyBack
Spec == Init /\ [][Next]_vars

AsIfReadBefore == (todo = {} /\ direct) => mem = Store(start, d, Want)
OthersUntouched == \A k \in (1..NCells) \ Cells(d) : mem[k] = start[k]
===============================================================================
