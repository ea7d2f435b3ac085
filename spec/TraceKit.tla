------------------------------- MODULE TraceKit -------------------------------
(* The recorded trace: one JSON object per public call of the code under test.  *)
EXTENDS Naturals, Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Trace)
Bad(i) == PrintT(<<"BAD", i>>)
===============================================================================
