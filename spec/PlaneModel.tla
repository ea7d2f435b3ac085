-------------------------------- MODULE PlaneModel --------------------------------
(* A plane carried along by maps, forwards and back, and dilated, together with     *)
(* every point of a grid: the maps move no point to another side of the plane, and  *)
(* undoing the map done last brings the same plane back.                            *)
EXTENDS Facet
CONSTANTS N, R, Steps, MaxDet
VARIABLES pl, pts, side, last, steps
vars == <<pl, pts, side, last, steps>>

Pts == {[i \in 1..N |-> f[i]] : f \in [1..N -> -1..1]}
Ms == {[i \in 1..N |-> [j \in 1..N |-> f[i][j]]] : f \in [1..N -> [1..N -> -R..R]]}
Maps == {m \in Ms : LET d == Abs(Det(m)) IN d >= 1 /\ d <= MaxDet}
Ts == {VZero(N), [i \in 1..N |-> i - 2]}
SideOf(q, v) == Sgn(Off(q, v, 1))
Norms == {n \in Pts : n # VZero(N)}

Init == /\ \E n \in Norms : \E k \in {-1, 0, 2} : pl = [n |-> n, k |-> k]
        /\ pts = [v \in Pts |-> <<v, 1>>]
        /\ side = [v \in Pts |-> SideOf(pl, v)]
        /\ last = [how |-> "none"] /\ steps = 0

Apply == \E m \in Maps, t \in Ts :
            /\ pl' = Lowest(Moved(pl, m, t))
            /\ pts' = [v \in Pts |-> <<VAdd(MVec(m, pts[v][1]), VScale(pts[v][2], t)), pts[v][2]>>]
            /\ last' = [how |-> "apply", m |-> m, t |-> t, was |-> pl]
Undo == \E m \in Maps, t \in Ts :
            /\ pl' = Lowest(Unmoved(pl, m, t))
            /\ pts' = [v \in Pts |-> Unmap([m |-> m, t |-> t], pts[v][1], pts[v][2])]
            /\ last' = [how |-> "undo", m |-> m, t |-> t, was |-> pl]
Next == steps < Steps /\ steps' = steps + 1 /\ (Apply \/ Undo) /\ UNCHANGED side
Spec == Init /\ [][Next]_vars

KeepsSides == \A v \in Pts : Sgn(Off(pl, pts[v][1], pts[v][2])) = side[v]
Undoes == /\ last.how = "apply" => SamePlane(Unmoved(pl, last.m, last.t), last.was)
          /\ last.how = "undo" => SamePlane(Moved(pl, last.m, last.t), last.was)
==================================================================================
