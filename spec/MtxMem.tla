-------------------------------- MODULE MtxMem --------------------------------
(* Matrices as windows on one memory: v.base is the offset of the first element,  *)
(* v.r and v.c the dimensions, v.rm whether rows (or columns) are consecutive.    *)
(* What an operation should leave in memory, whichever windows overlap.           *)
EXTENDS LinAlg

CellOf(v, i, j) == v.base + (IF v.rm THEN (i - 1) * v.c + j ELSE (j - 1) * v.r + i)
Window(mem, v) == Mat(v.r, v.c, LAMBDA i, j : mem[CellOf(v, i, j)])
Cells(v) == {v.base + k : k \in 1..(v.r * v.c)}
Overlap(v, w) == Cells(v) \cap Cells(w) # {}
(* row and column of a cell of v *)
RowOf(v, k) == LET o == k - v.base - 1 IN IF v.rm THEN o \div v.c + 1 ELSE (o % v.r) + 1
ColOf(v, k) == LET o == k - v.base - 1 IN IF v.rm THEN (o % v.c) + 1 ELSE o \div v.r + 1
Store(mem, v, a) == [k \in DOMAIN mem |-> IF k \in Cells(v) THEN a[RowOf(v, k)][ColOf(v, k)] ELSE mem[k]]
================================================================================
