--------------------------------- MODULE Perm ----------------------------------
(* Permutation matrices: named objects, each a bijection of 0..n-1 given by the  *)
(* source of every row, with a cached sign that may be unknown (0).              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots

VARIABLE pm      \* [Slots -> [src |-> Seq(0..n-1), sg |-> {-1,0,1}]]

Size(q) == Len(q)
IsPerm(q) == {q[i] : i \in 1..Len(q)} = 0..(Len(q) - 1)
Ident(n) == [i \in 1..n |-> i - 1]
Inverse(q) == [j \in 1..Len(q) |-> (CHOOSE i \in 1..Len(q) : q[i] = j - 1) - 1]
\* row i of (P*Q) is row P.src[i] of Q
Compose(p, q) == [i \in 1..Len(p) |-> q[p[i] + 1]]
Inversions(q) == Cardinality({<<i, j>> \in (1..Len(q)) \X (1..Len(q)) : i < j /\ q[i] > q[j]})
Sign(q) == IF Inversions(q) % 2 = 0 THEN 1 ELSE -1
SwapSrc(q, a, b) == [q EXCEPT ![a + 1] = q[b + 1], ![b + 1] = q[a + 1]]

Obj(q, s) == [src |-> q, sg |-> s]
Neg(s, a, b) == IF a = b THEN s ELSE -s

SetIdentity(s)    == pm' = [pm EXCEPT ![s] = Obj(Ident(Len(@.src)), 1)]
SetRowSources(s, q) == IsPerm(q) /\ pm' = [pm EXCEPT ![s] = Obj(q, 0)]
SetColSources(s, q) == IsPerm(q) /\ pm' = [pm EXCEPT ![s] = Obj(Inverse(q), 0)]
SwapRows(s, a, b) == pm' = [pm EXCEPT ![s] = Obj(SwapSrc(@.src, a, b), Neg(@.sg, a, b))]
SwapCols(s, a, b) == pm' = [pm EXCEPT ![s] = Obj(Inverse(SwapSrc(Inverse(@.src), a, b)), Neg(@.sg, a, b))]
Transpose(s)      == pm' = [pm EXCEPT ![s] = Obj(Inverse(@.src), @.sg)]
GetSign(s)        == pm' = [pm EXCEPT ![s].sg = IF @ = 0 THEN Sign(pm[s].src) ELSE @]
Copy(s, t)        == pm' = [pm EXCEPT ![s] = pm[t]]
TransposeOf(s, t) == pm' = [pm EXCEPT ![s] = Obj(Inverse(pm[t].src), 0)]
Mul(s, t, u)      == pm' = [pm EXCEPT ![s] = Obj(Compose(pm[t].src, pm[u].src), 0)]

PermOK == \A s \in Slots : IsPerm(pm[s].src)
\* the cache never disagrees with the permutation
SignOK == \A s \in Slots : pm[s].sg # 0 => pm[s].sg = Sign(pm[s].src)
================================================================================
