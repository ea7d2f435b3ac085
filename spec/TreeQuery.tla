--------------------------------- MODULE TreeQuery ---------------------------------
(* How a query walks a subtree: from a node on to its first child, or, when the    *)
(* bound excludes the node or it is a leaf, to the next sibling of the node or of   *)
(* its nearest ancestor below the root of the query that has one.  For every tree   *)
(* and every set of excluded nodes this visits exactly the nodes which are not      *)
(* below an excluded one, in depth-first order, and finds every reachable leaf; and *)
(* a walk set to such a node (from) visits those from there on.                     *)
EXTENDS Tree
CONSTANT MaxN
VARIABLES t, root, ex, from, cur, seen
vars == <<t, root, ex, from, cur, seen>>
END == <<0>>

RECURSIVE Trees(_)
RECURSIVE Forests(_)
Trees(n) == {Node(0, k, <<>>) : k \in Forests(n - 1)}
Forests(m) == IF m = 0 THEN {<<>>} ELSE UNION {{<<x>> \o f : x \in Trees(j), f \in Forests(m - j)} : j \in 1..m}

RECURSIVE Next_(_)
Next_(p) == IF p = root THEN END
            ELSE LET up == Front(p) c == p[Len(p)] IN
                 IF c < Len(At(t, up).k) THEN up \o <<c + 1>> ELSE Next_(up)
Step(p) == IF p \notin ex /\ ~IsLeaf(At(t, p)) THEN p \o <<1>> ELSE Next_(p)

Init == /\ \E n \in 1..MaxN : t \in Trees(n)
        /\ root \in Paths(t)
        /\ ex \in SUBSET {p \in Paths(t) : Prefix(root, p)}
        /\ from \in {p \in Paths(t) : Prefix(root, p) /\ \A j \in Len(root)..Len(p) - 1 : SubSeq(p, 1, j) \notin ex}
        /\ cur = from /\ seen = <<>>
Next == /\ cur # END
        /\ seen' = IF cur \in ex THEN seen ELSE Append(seen, cur)
        /\ cur' = Step(cur)
        /\ UNCHANGED <<t, root, ex, from>>
Spec == Init /\ [][Next]_vars

Want == LET all == PreOrder(At(t, root))
            k == CHOOSE i \in 1..Len(all) : root \o all[i] = from
            ps == SubSeq(all, k, Len(all))
            Reach(p) == \A j \in 0..Len(p) : root \o SubSeq(p, 1, j) \notin ex
            w == SelectSeq(ps, Reach)
        IN  [j \in 1..Len(w) |-> root \o w[j]]
Visited == /\ Len(seen) <= Len(Want) /\ SubSeq(Want, 1, Len(seen)) = seen
           /\ cur = END => seen = Want
Inside == cur = END \/ Prefix(root, cur)
====================================================================================
