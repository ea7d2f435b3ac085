-------------------------------- MODULE SmoothTrace ---------------------------------
(* Recorded values of noise functions and paths.                                      *)
EXTENDS Smooth, TraceKit

MyOk(e) ==
  CASE e.op = "Cell" -> /\ e.scale = ProdD(e.p, Len(e.p))
                        /\ e.val = Noise(e.g, e.p) /\ e.gval = e.val
                        /\ e.grad = [k \in 1..Len(e.p) |-> NoiseSlope(e.g, e.p, k)]
                        \* nothing on the corners
                        /\ \A j \in DOMAIN e.zero : e.zero[j] = 0
    [] e.op = "Random" -> e.same /\ e.copy /\ e.unit /\ e.sides /\ e.few = FALSE
    [] e.op = "Path" -> /\ e.scale = 4 * PathD(e.ks, e.t)
                        /\ e.ret = [a \in 1..Len(e.ret) |-> PathAt(e.ks, e.t, a)]
    [] OTHER -> FALSE
VARIABLE l
F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
===================================================================================
