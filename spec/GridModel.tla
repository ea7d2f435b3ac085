------------------------------- MODULE GridModel -------------------------------
(* The iterator as implemented: a point stepped like an odometer, and moved by    *)
(* any number with carries.  It refines a plain counter (OrdOK).                  *)
EXTENDS Grid, TLC

CONSTANTS Lo, Hi, First, Steps

VARIABLES pt, ord

n == Len(Lo)
ax == Axes(n, First)
vol == Volume(Lo, Hi, ax)

RECURSIVE IncFrom(_, _), DecFrom(_, _), AddFrom(_, _, _)
IncFrom(p, i) ==
    LET a == ax[i]
        q == [p EXCEPT ![a] = @ + 1]
    IN  IF q[a] > Hi[a] /\ i < n THEN IncFrom([q EXCEPT ![a] = Lo[a]], i + 1) ELSE q
DecFrom(p, i) ==
    LET a == ax[i]
        q == [p EXCEPT ![a] = @ - 1]
    IN  IF q[a] < Lo[a] /\ i < n THEN DecFrom([q EXCEPT ![a] = Hi[a]], i + 1) ELSE q
AddFrom(p, k, i) ==
    LET a == ax[i]
        m == k + p[a] - Lo[a]
        d == Dim(Lo, Hi, a)
    IN  IF i = n THEN [p EXCEPT ![a] = @ + k]
        ELSE AddFrom([p EXCEPT ![a] = Lo[a] + (m % d)], m \div d, i + 1)

Init == pt = Lo /\ ord = 0
Inc == ord < vol /\ pt' = IncFrom(pt, 1) /\ ord' = ord + 1
Dec == ord > -1 /\ pt' = DecFrom(pt, 1) /\ ord' = ord - 1
Add == \E k \in -Steps..Steps :
    /\ ord + k \in -1..vol
    /\ pt' = AddFrom(pt, k, 1) /\ ord' = ord + k
Next == Inc \/ Dec \/ Add
Spec == Init /\ [][Next]_<<pt, ord>>

OrdOK == Ord(Lo, Hi, ax, pt) = ord
PointOK == pt = PointAt(Lo, Hi, ax, ord)
(* the points between begin and end are those of the box, each once *)
InBox(p) == \A a \in 1..n : p[a] \in Lo[a]..Hi[a]
BoxOK == InBox(pt) <=> ord \in 0..(vol - 1)
================================================================================
