-------------------------------- MODULE FnTrace --------------------------------
(* Judges a trace of independent calls: Ok(e) says whether the arguments and     *)
(* results recorded in e are related as the specification demands.  An event     *)
(* marked nan carries a number outside the range its scenario can produce.       *)
EXTENDS TraceKit

CONSTANT Ok(_)
VARIABLE l

Chunk == atoi(IOEnv.CHUNK)
Judge(i) == IF "nan" \notin DOMAIN Trace[i] /\ Ok(Trace[i]) THEN TRUE ELSE Bad(i)

TraceInit == l \in {k \in 1..NT : (k - 1) % Chunk = 0} /\ Judge(l)
TraceNext == l % Chunk # 0 /\ l < NT /\ l' = l + 1 /\ Judge(l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_l
================================================================================
