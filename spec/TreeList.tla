--------------------------------- MODULE TreeList ----------------------------------
(* The representation: one list of nodes in sibling-contiguous order and one list  *)
(* of items in depth-first order; every node refers to its parent, its first and   *)
(* last child, its first and last item, and counts children and items.  It refines *)
(* the nested tree abs.                                                            *)
EXTENDS Tree, Json, TLC
CONSTANTS MaxN, MaxI
VARIABLES nd, ord, its, abs, act
vars == <<nd, ord, its, abs, act>>
View == <<nd, ord, its, abs>>
End == 0
Root == 1

Pos(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
After(s, x) == LET j == Pos(s, x) IN IF j = Len(s) THEN End ELSE s[j + 1]
Before(s, x) == LET j == Pos(s, x) IN IF j = 1 THEN End ELSE s[j - 1]
PutBefore(s, y, x) == IF y = End THEN Append(s, x) ELSE Ins(s, Pos(s, y) - 1, <<x>>)
New(par) == [par |-> par, cf |-> End, cl |-> End, fi |-> End, li |-> End, nc |-> 0, ni |-> 0]

(* the n list elements from x on *)
RECURSIVE Run(_, _, _)
Run(s, x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Run(s, After(s, x), n - 1)
Kids(N, O, n) == Run(O, N[n].cf, N[n].nc)
RECURSIVE Abs(_, _, _, _)
Abs(N, O, I, n) == LET ks == Kids(N, O, n) IN
    Node(n, [c \in 1..Len(ks) |-> Abs(N, O, I, ks[c])], IF ks = <<>> THEN Run(I, N[n].fi, N[n].ni) ELSE <<>>)
RECURSIVE Ref(_, _)
Ref(n, p) == IF p = <<>> THEN n ELSE Ref(Kids(nd, ord, n)[Head(p)], Tail(p))

(* where the children of a childless node belong in the list of nodes *)
RECURSIVE NodeSucc(_, _, _)
NodeSucc(N, O, n) ==
    IF N[n].par = End THEN End
    ELSE LET ks == Kids(N, O, N[n].par) j == Pos(ks, n)
             R == {c \in (j + 1)..Len(ks) : N[ks[c]].nc > 0}
         IN  IF R # {} THEN N[ks[CHOOSE c \in R : \A x \in R : c <= x]].cf ELSE NodeSucc(N, O, N[n].par)
RECURSIVE ItemSucc(_, _, _)
ItemSucc(N, O, n) ==
    IF N[n].par = End THEN End
    ELSE LET ks == Kids(N, O, N[n].par) j == Pos(ks, n)
             R == {c \in (j + 1)..Len(ks) : N[ks[c]].ni > 0}
         IN  IF R # {} THEN N[ks[CHOOSE c \in R : \A x \in R : c <= x]].fi ELSE ItemSucc(N, O, N[n].par)

(* a leaf now has items fi..li, ni changed by delta: correct it and its ancestors *)
RECURSIVE Climb(_, _, _, _)
Climb(N, O, n, delta) ==
    IF n = End THEN N
    ELSE LET m == N[n].ni + delta ks == Kids(N, O, n)
             R == {c \in 1..Len(ks) : N[ks[c]].ni > 0}
             lo == CHOOSE c \in R : \A x \in R : c <= x
             hi == CHOOSE c \in R : \A x \in R : c >= x
             M == [N EXCEPT ![n].ni = m,
                            ![n].fi = IF m = 0 THEN End ELSE N[ks[lo]].fi,
                            ![n].li = IF m = 0 THEN End ELSE N[ks[hi]].li]
         IN  Climb(M, O, N[n].par, delta)
Bounds(N, O, n, f, l, delta) ==
    LET m == N[n].ni + delta
        M == [N EXCEPT ![n].ni = m, ![n].fi = IF m = 0 THEN End ELSE f, ![n].li = IF m = 0 THEN End ELSE l]
    IN  Climb(M, O, N[n].par, delta)

FreshN == CHOOSE x \in 1..MaxN : x \notin DOMAIN nd /\ \A y \in 1..(x - 1) : y \in DOMAIN nd
Used(s) == {s[j] : j \in DOMAIN s}
FreshI == CHOOSE x \in 1..MaxI : x \notin Used(its) /\ \A y \in 1..(x - 1) : y \in Used(its)
With(N, x, v) == [n \in DOMAIN N \cup {x} |-> IF n = x THEN v ELSE N[n]]
Did(op, p, pos) == act' = [op |-> op, p |-> p, pos |-> pos]

Init == nd = (Root :> New(End)) /\ ord = <<Root>> /\ its = <<>> /\ abs = Leaf(Root) /\ act = [op |-> "Init", p |-> <<>>, pos |-> 0]

InsertChild(p, pos) ==
    LET n == Ref(Root, p) x == FreshN ks == Kids(nd, ord, n)
        where == IF ks = <<>> THEN NodeSucc(nd, ord, n) ELSE IF pos = Len(ks) THEN After(ord, nd[n].cl) ELSE ks[pos + 1]
        v == IF ks = <<>> THEN [New(n) EXCEPT !.fi = nd[n].fi, !.li = nd[n].li, !.ni = nd[n].ni] ELSE New(n)
        M == With(nd, x, v)
    IN  /\ ord' = PutBefore(ord, where, x)
        /\ nd' = [M EXCEPT ![n].nc = @ + 1, ![n].cf = IF pos = 0 THEN x ELSE @, ![n].cl = IF pos = Len(ks) THEN x ELSE @]
        /\ UNCHANGED its
        /\ abs' = Put(abs, p, AddChildren(At(abs, p), pos, <<x>>))
        /\ Did("InsertChild", p, pos)
InsertItem(p, pos) ==
    LET n == Ref(Root, p) x == FreshI is == Run(its, nd[n].fi, nd[n].ni)
        where == IF is = <<>> THEN ItemSucc(nd, ord, n) ELSE IF pos = Len(is) THEN After(its, nd[n].li) ELSE is[pos + 1]
    IN  /\ nd[n].nc = 0
        /\ its' = PutBefore(its, where, x)
        /\ nd' = Bounds(nd, ord, n, IF pos = 0 THEN x ELSE nd[n].fi, IF pos = Len(is) THEN x ELSE nd[n].li, 1)
        /\ UNCHANGED ord
        /\ abs' = Put(abs, p, AddItems(At(abs, p), pos, <<x>>))
        /\ Did("InsertItem", p, pos)
EraseItem(p, pos) ==
    LET n == Ref(Root, p) is == Run(its, nd[n].fi, nd[n].ni) x == is[pos] IN
        /\ nd[n].nc = 0
        /\ its' = Del(its, Pos(its, x))
        /\ nd' = Bounds(nd, ord, n, IF pos = 1 /\ Len(is) > 1 THEN is[2] ELSE nd[n].fi,
                                    IF pos = Len(is) /\ Len(is) > 1 THEN is[Len(is) - 1] ELSE nd[n].li, -1)
        /\ UNCHANGED ord
        /\ abs' = Put(abs, p, DropItem(At(abs, p), pos))
        /\ Did("EraseItem", p, pos)

(* flatten: drop the nodes listed from the first child up to the node's successor *)
Flat(N, O, n) ==
    IF N[n].nc = 0 THEN [N |-> N, O |-> O]
    ELSE LET a == Pos(O, N[n].cf) succ == NodeSucc(N, O, n)
             b == IF succ = End THEN Len(O) ELSE Pos(O, succ) - 1
             gone == {O[j] : j \in a..b}
         IN  [N |-> [m \in DOMAIN N \ gone |-> IF m = n THEN [N[n] EXCEPT !.nc = 0, !.cf = End, !.cl = End] ELSE N[m]],
              O |-> SubSeq(O, 1, a - 1) \o SubSeq(O, b + 1, Len(O))]
Cleared(n) ==
    LET f == Flat(nd, ord, n) k == nd[n].ni IN
    IF k = 0 THEN [N |-> f.N, O |-> f.O, I |-> its]
    ELSE [N |-> Bounds(f.N, f.O, n, End, End, -k), O |-> f.O,
          I |-> SubSeq(its, 1, Pos(its, nd[n].fi) - 1) \o SubSeq(its, Pos(its, nd[n].li) + 1, Len(its))]
FlattenN(p) ==
    LET n == Ref(Root, p) f == Flat(nd, ord, n) IN
        /\ nd' = f.N /\ ord' = f.O /\ UNCHANGED its
        /\ abs' = Put(abs, p, Flatten(At(abs, p))) /\ Did("Flatten", p, 0)
ClearN(p) ==
    LET c == Cleared(Ref(Root, p)) IN
        /\ nd' = c.N /\ ord' = c.O /\ its' = c.I
        /\ abs' = Put(abs, p, Clear(At(abs, p))) /\ Did("Clear", p, 0)
EraseChild(p, c) ==
    LET n == Ref(Root, p) x == Kids(nd, ord, n)[c] f == Cleared(x)
        succ == After(f.O, x) prev == Before(f.O, x)
        M == [m \in DOMAIN f.N \ {x} |-> f.N[m]]
    IN  /\ ord' = Del(f.O, Pos(f.O, x)) /\ its' = f.I
        /\ nd' = [M EXCEPT ![n].nc = @ - 1,
                           ![n].cf = IF f.N[n].nc = 1 THEN End ELSE IF @ = x THEN succ ELSE @,
                           ![n].cl = IF f.N[n].nc = 1 THEN End ELSE IF @ = x THEN prev ELSE @]
        /\ abs' = Put(abs, p, DropChild(At(abs, p), c)) /\ Did("EraseChild", p, c)

Next == \E p \in Paths(abs) : LET n == At(abs, p) IN
    \/ Cardinality(DOMAIN nd) < MaxN /\ \E pos \in 0..Len(n.k) : InsertChild(p, pos)
    \/ IsLeaf(n) /\ Len(its) < MaxI /\ \E pos \in 0..Len(n.i) : InsertItem(p, pos)
    \/ IsLeaf(n) /\ \E pos \in 1..Len(n.i) : EraseItem(p, pos)
    \/ \E c \in 1..Len(n.k) : EraseChild(p, c)
    \/ FlattenN(p)
    \/ ClearN(p)
Spec == Init /\ [][Next]_vars

(* ---- the representation invariant and refinement ---- *)
Refines == Abs(nd, ord, its, Root) = abs
Listed == ord = Order(abs) /\ its = Items(abs) /\ Used(ord) = DOMAIN nd
Links == \A p \in Paths(abs) : LET n == Ref(Root, p) a == At(abs, p) is == Items(a) IN
    /\ nd[n].nc = Len(a.k) /\ nd[n].ni = Len(is)
    /\ nd[n].par = (IF p = <<>> THEN End ELSE Ref(Root, Front(p)))
    /\ nd[n].cl = (IF IsLeaf(a) THEN End ELSE a.k[Len(a.k)].d)
    /\ nd[n].fi = (IF is = <<>> THEN End ELSE is[1])
    /\ nd[n].li = (IF is = <<>> THEN End ELSE is[Len(is)])
Emit == PrintT(ToJson([p |-> abs, a |-> act', q |-> abs']))
====================================================================================
