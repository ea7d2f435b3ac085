----------------------------------- MODULE Tree -----------------------------------
(* A tree as a nested value: a node has data d, children k and, if it has no       *)
(* children, items i.  Nodes are addressed by the path of child numbers from the   *)
(* root.                                                                           *)
EXTENDS Integers, Sequences, FiniteSets

Node(d, k, i) == [d |-> d, k |-> k, i |-> i]
Leaf(d) == Node(d, <<>>, <<>>)
IsLeaf(n) == n.k = <<>>

RECURSIVE At(_, _)
At(n, p) == IF p = <<>> THEN n ELSE At(n.k[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(n, p, x) == IF p = <<>> THEN x ELSE [n EXCEPT !.k[Head(p)] = Put(@, Tail(p), x)]
RECURSIVE Paths(_)
Paths(n) == {<<>>} \cup UNION {{<<c>> \o p : p \in Paths(n.k[c])} : c \in 1..Len(n.k)}

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Items(_)
Items(n) == IF IsLeaf(n) THEN n.i ELSE Cat([c \in 1..Len(n.k) |-> Items(n.k[c])])
RECURSIVE Size(_)
RECURSIVE SumSizes(_)
SumSizes(k) == IF k = <<>> THEN 0 ELSE Size(Head(k)) + SumSizes(Tail(k))
Size(n) == 1 + SumSizes(n.k)

(* sibling-contiguous order: all children first, then the descendants of each *)
RECURSIVE Below(_)
Below(n) == [c \in 1..Len(n.k) |-> n.k[c].d] \o Cat([c \in 1..Len(n.k) |-> Below(n.k[c])])
Order(n) == <<n.d>> \o Below(n)
(* depth-first order of paths *)
RECURSIVE PreOrder(_)
PreOrder(n) == <<<<>>>> \o Cat([c \in 1..Len(n.k) |-> LET ps == PreOrder(n.k[c]) IN [j \in 1..Len(ps) |-> <<c>> \o ps[j]]])

Ins(s, pos, x) == SubSeq(s, 1, pos) \o x \o SubSeq(s, pos + 1, Len(s))      \* after the first pos elements
Del(s, pos) == SubSeq(s, 1, pos - 1) \o SubSeq(s, pos + 1, Len(s))

(* ---- operations, on the node addressed ---- *)
AddChildren(n, pos, ds) ==
    IF ds = <<>> THEN n
    ELSE LET new == [j \in 1..Len(ds) |-> IF j = 1 /\ IsLeaf(n) THEN Node(ds[1], <<>>, n.i) ELSE Leaf(ds[j])]
         IN  Node(n.d, Ins(n.k, pos, new), <<>>)
AddItems(n, pos, xs) == IF IsLeaf(n) THEN Node(n.d, <<>>, Ins(n.i, pos, xs)) ELSE n
DropItem(n, pos) == Node(n.d, <<>>, Del(n.i, pos))
DropChild(n, c) == Node(n.d, Del(n.k, c), <<>>)
Clear(n) == Leaf(n.d)
Flatten(n) == IF IsLeaf(n) THEN n ELSE Node(n.d, <<>>, Items(n))
(* the first leaf of an adopted tree takes over the items of its new parent *)
RECURSIVE Prepend(_, _)
Prepend(n, xs) == IF IsLeaf(n) THEN Node(n.d, <<>>, xs \o n.i) ELSE [n EXCEPT !.k[1] = Prepend(@, xs)]
Adopt(n, pos, sub) == Node(n.d, Ins(n.k, pos, <<IF IsLeaf(n) THEN Prepend(sub, n.i) ELSE sub>>), <<>>)

Front(s) == SubSeq(s, 1, Len(s) - 1)
Occurs(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
SameBag(s, u) == Len(s) = Len(u) /\ \A j \in DOMAIN s : Occurs(s, s[j]) = Occurs(u, s[j])
CanSplit(t, p) == p # <<>> /\ IsLeaf(At(t, p)) /\ Len(At(t, p).i) >= 2
(* u is t after splitting the leaf at p: its items below the pivot went to a new left sibling *)
Split(t, p, pivot, d, u) ==
    LET c == p[Len(p)] par == At(t, Front(p)) q == Front(p) n == At(t, p)
        Low(x) == x < pivot High(x) == x >= pivot
    IN  /\ q \in Paths(u) /\ Len(At(u, q).k) = Len(par.k) + 1
        /\ LET lo == At(u, q).k[c] hi == At(u, q).k[c + 1] IN
             /\ IsLeaf(lo) /\ IsLeaf(hi) /\ lo.d = d /\ hi.d = n.d
             /\ SameBag(lo.i, SelectSeq(n.i, Low)) /\ SameBag(hi.i, SelectSeq(n.i, High))
             /\ u = Put(t, q, Node(par.d, SubSeq(par.k, 1, c - 1) \o <<lo, hi>> \o SubSeq(par.k, c + 1, Len(par.k)), <<>>))

(* ---- questions ---- *)
\* the path below p of the leaf that holds the item numbered x in the whole of n
RECURSIVE LeafOf(_, _)
LeafOf(n, x) == IF IsLeaf(n) THEN <<>>
    ELSE LET Upto(c) == Len(Cat([j \in 1..c |-> Items(n.k[j])]))
             c == CHOOSE j \in 1..Len(n.k) : Upto(j - 1) < x /\ x <= Upto(j)
         IN  <<c>> \o LeafOf(n.k[c], x - Upto(c - 1))
FirstItem(t, p) == Len(Cat([j \in 1..Len(p) |-> LET q == SubSeq(p, 1, j - 1) IN Cat([c \in 1..(p[j] - 1) |-> Items(At(t, q \o <<c>>))])])) + 1
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
===================================================================================
