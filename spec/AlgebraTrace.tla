----------------------------- MODULE AlgebraTrace -----------------------------
(* Judges recorded matrix operations: a and b are operands (rows of elements),    *)
(* res what was returned or left in the destination.                              *)
EXTENDS MtxMem, TraceKit

VARIABLE l

Same(e, want) == e.res = want
MemOk(e) ==
    LET A == Window(e.mem, e.a)
        B == Window(e.mem, e.b)
        D == Window(e.mem, e.d)
        want == CASE e.fn = "mul" -> MMul(A, B)
                  [] e.fn = "mulacc" -> MAdd(D, MMul(A, B))
                  [] e.fn = "transpose" -> Transp(A)
                  [] e.fn = "add" -> MAdd(A, B)
                  [] e.fn = "sub" -> MSub(A, B)
                  [] e.fn = "scale" -> MScale(e.k, A)
                  [] e.fn = "timesk" -> MScale(e.k, A)
                  [] e.fn = "copy" -> A
    IN  e.out = Store(e.mem, e.d, want)

(* sizes <<rows, columns>> that agree *)
Agree(e) == CASE e.fn \in {"mul"} -> e.a[2] = e.b[1]
              [] e.fn \in {"mulinto", "mulacc"} -> e.a[2] = e.b[1] /\ e.d = <<e.a[1], e.b[2]>>
              [] e.fn \in {"add", "sub"} -> e.a = e.b
              [] e.fn \in {"addinto", "subinto"} -> e.a = e.b /\ e.d = e.a
              [] e.fn = "transposeinto" -> e.d = <<e.a[2], e.a[1]>>
              [] e.fn \in {"scaleinto", "copy"} -> e.d = e.a
              [] e.fn \in {"inv", "timesdiag"} -> e.a[2] = e.b[1]

MyOk(e) ==
    CASE e.op = "mul" -> Same(e, MMul(e.a, e.b))
      [] e.op = "mulacc" -> Same(e, MAdd(e.d, MMul(e.a, e.b)))
      [] e.op = "add" -> Same(e, MAdd(e.a, e.b))
      [] e.op = "sub" -> Same(e, MSub(e.a, e.b))
      [] e.op = "scale" -> Same(e, MScale(e.k, e.a))
      [] e.op = "transpose" -> Same(e, Transp(e.a))
      [] e.op = "copy" -> Same(e, e.a)
      [] e.op = "eq" -> e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b)
      [] e.op = "mem" -> MemOk(e)
      [] e.op = "dims" -> e.threw = ~Agree(e) /\ (e.threw => e.kept)
      [] e.op = "eqdims" -> e.eq = (e.a = e.b)

F == INSTANCE FnTrace WITH Ok <- MyOk
TraceSpec == F!TraceSpec
================================================================================
