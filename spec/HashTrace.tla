-------------------------------- MODULE HashTrace ---------------------------------
(* Recorded hashes.  Values are given by their components; digests by limbs.         *)
EXTENDS SipHash, TraceKit

HashOk(e) ==
  CASE e.op = "Sip" -> e.ret = Sip(e.key, e.msg, e.wide) /\ e.guard
    \* the digest's first word is the high half of the 128-bit hash; the nonce, low half first, is the key
    [] e.op = "Bytes128" -> LET s == Sip(e.key, e.msg, TRUE) IN e.hi = s[1] /\ e.lo = s[2]
    \* equal values have equal hashes; every component counts
    [] e.op = "Pair" -> /\ e.eq = (e.a = e.b)
                        /\ (e.a = e.b => e.same)
                        /\ (e.a # e.b => ~e.same64)
    \* the same value through std::hash, Digest and hash(), and in a copy
    [] e.op = "Ways" -> e.same
    [] e.op = "Set"  -> e.size = e.want
    [] OTHER -> FALSE
VARIABLE l
F == INSTANCE FnTrace WITH Ok <- HashOk
TraceSpec == F!TraceSpec
===================================================================================
