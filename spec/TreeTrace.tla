-------------------------------- MODULE TreeTrace ---------------------------------
(* Recorded histories of two trees against module Tree.                            *)
EXTENDS Tree, TraceKit
VARIABLES t, l
tvars == <<t, l>>
E == Trace[l + 1]
S == E.s
N == At(t[S], E.p)

RECURSIVE Seen(_, _)
Seen(o, n) == /\ o.d = n.d /\ o.nc = Len(n.k) /\ Len(o.k) = Len(n.k)
              /\ o.i = Items(n) /\ o.ni = Len(o.i)
              /\ \A c \in 1..Len(n.k) : Seen(o.k[c], n.k[c])
\* what was seen, as a tree
RECURSIVE Raw(_)
Raw(o) == Node(o.d, [c \in 1..Len(o.k) |-> Raw(o.k[c])], IF Len(o.k) = 0 THEN o.i ELSE <<>>)

Is(s, x) == t' = [t EXCEPT ![s] = x]
Now(x) == Is(S, Put(t[S], E.p, x))
Same == UNCHANGED t
\* the number, in the whole tree, of the item at position k of the node at path p
ItemNo(p, k) == FirstItem(t[S], p) + k
Fails(m, r, d) == d % m = r

Act ==
  CASE E.op = "InsertChild" -> /\ Now(AddChildren(N, E.pos, <<E.d>>))
                               /\ E.ret = E.p \o <<E.pos + 1>>
    [] E.op = "InsertChildBad" -> Same /\ E.isend
    [] E.op = "InsertChildren" -> /\ Now(AddChildren(N, E.pos, E.ds))
                                  /\ IF E.ds = <<>> THEN E.isend ELSE E.ret = E.p \o <<E.pos + 1>>
    [] E.op \in {"InsertItem", "InsertItems"} ->
                               /\ Now(AddItems(N, E.pos, E.xs))
                               /\ "badcount" \notin DOMAIN E
                               /\ IF IsLeaf(N) /\ E.xs # <<>> THEN E.ret = ItemNo(E.p, E.pos) ELSE E.isend
    [] E.op = "SetData"  -> Now([N EXCEPT !.d = E.d])
    [] E.op = "SetItem"  -> Now([N EXCEPT !.i[E.pos] = E.x])
    [] E.op = "EraseItem" -> /\ Now(DropItem(N, E.pos)) /\ E.ok
                             /\ IF E.pos = Len(N.i) THEN E.isend ELSE E.ret = ItemNo(E.p, E.pos - 1)
    [] E.op \in {"EraseItemForeign", "EraseChildBad"} -> Same /\ ~E.ok /\ ("isend" \in DOMAIN E => E.isend)
    [] E.op = "EraseChild" -> Now(DropChild(N, E.pos)) /\ E.ok /\ E.where
    [] E.op = "Flatten" -> Now(Flatten(N))
    [] E.op = "Clear"   -> Now(Clear(N))
    [] E.op = "Split"   -> IF CanSplit(t[S], E.p)
                           THEN /\ Is(S, Raw(E.st[S].t))
                                /\ Split(t[S], E.p, E.pivot, E.d, t'[S])
                                /\ ~E.isend /\ E.ret = E.p
                           ELSE Same /\ E.isend
    [] E.op = "Adopt"   -> Now(Adopt(N, E.pos, At(t[E.u], E.q))) /\ E.ret = E.p \o <<E.pos + 1>>
    [] E.op = "Copy"    -> Is(S, t[E.u])
    [] E.op = "CopySub" -> Is(S, At(t[E.u], E.q))
    [] E.op = "Move"    -> t' = [t EXCEPT ![S] = t[E.u], ![E.u] = Leaf(E.d)]
    [] E.op = "FromItems" -> Is(S, Node(E.d, <<>>, E.xs))
    [] E.op = "Equal"   -> Same /\ E.eq = (t[1] = t[2]) /\ E.ne = ~E.eq /\ E.self /\ E.own /\ E.foreign
    [] E.op = "FindParent" -> /\ Same
         /\ LET q == LeafOf(t[S], E.x)
                through == {SubSeq(q, 1, j) : j \in Len(E.p)..Len(q)}
                found == Prefix(E.p, q) /\ (E.bounded => \A x \in through : ~Fails(E.m, E.r, At(t[S], x).d))
            IN  IF found THEN E.ret = q ELSE E.isend
    [] E.op = "Query" -> /\ Same /\ E.same
         /\ LET ps == PreOrder(N)
                d(p) == At(N, p).d + E.key
                Reach(p) == \A j \in 0..(Len(p) - 1) : ~Fails(E.m1, E.r1, d(SubSeq(p, 1, j)))
                Visit(p) == Reach(p) /\ (IF E.m2 = 0 THEN IsLeaf(At(N, p)) ELSE ~Fails(E.m2, E.r2, d(p)))
                \* a search set to a node goes on from there
                x == IF E.seek THEN SubSeq(E.from, Len(E.p) + 1, Len(E.from)) ELSE <<>>
                k == CHOOSE i \in 1..Len(ps) : ps[i] = x
                want == SelectSeq(SubSeq(ps, k, Len(ps)), Visit)
            IN  Reach(x) => E.seen = [j \in 1..Len(want) |-> E.p \o want[j]]
    [] E.op = "Range" -> Same /\ E.below = Below(N) /\ E.moves
    [] OTHER -> FALSE

\* the whole of both trees, however looked at
Shown(s, x) == LET o == E.st[s] IN
    /\ Seen(o.t, x) /\ o.links
    /\ o.ord = Order(x) /\ o.back = o.ord
    /\ o.size = Len(o.ord) /\ o.ic = Len(o.t.i)
StepOK == Act /\ \A s \in {1, 2} : Shown(s, t'[s])

EpStart(i) == Trace[i].op = "Reset"
TraceInit == \E i \in 1..NT : EpStart(i) /\ l = i /\ t = [s \in {1, 2} |-> Leaf(s)]
More == l > 0 /\ l < NT /\ ~EpStart(l + 1)
TraceNext ==
  \/ More /\ StepOK /\ l' = l + 1
  \/ /\ More
     /\ ~ENABLED (StepOK /\ l' = l + 1)
     /\ Bad(l + 1)
     /\ l' = -l - 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
===================================================================================
