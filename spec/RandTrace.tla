---------------------------------- MODULE RandTrace --------------------------------
(* Recorded histories of draws: each event lists the words drawn from the generator *)
(* (ws) and the value returned.  Also permutations and samples of regions.          *)
EXTENDS Rand, FiniteSets, TraceKit
VARIABLES g, p, l
tvars == <<g, p, l>>
E == Trace[l + 1]

S0 == [p |-> p, ws |-> E.ws, short |-> FALSE]
Pool(s) == s.ws = <<>> /\ ~s.short /\ p' = s.p
\* k coins
RECURSIVE Coins(_, _)
Coins(s, k) == IF k = 0 THEN [v |-> <<>>, s |-> s]
               ELSE LET f == Flip(s) r == Coins(f.s, k - 1) IN [v |-> <<f.coin>> \o r.v, s |-> r.s]
Bits(k) == LET w == E.size \div 4 IN IF w = 1 THEN E.ws[k] ELSE E.ws[2 * k - 1] \o E.ws[2 * k]

Sq(x) == x * x
EvenHist(h) == LET RECURSIVE Tot(_)
                   Tot(s) == IF s = <<>> THEN 0 ELSE Head(s) + Tot(Tail(s))
                   t == Tot(h) k == Len(h)
               IN  \A j \in 1..k : Sq(h[j] - t \div k) * k <= 36 * t

Act ==
  CASE E.op = "Seed" -> g' = GenInit(E.gen, E.seed) /\ p' = NoPool
    [] E.op = "Word" -> Len(E.ws) = 1 /\ E.v = E.ws[1] /\ UNCHANGED p
    [] E.op = "Words" -> E.v = E.ws /\ UNCHANGED p
    [] E.op = "Coins" -> LET r == Coins(S0, Len(E.v)) IN r.v = E.v /\ Pool(r.s)
    [] E.op = "Any" -> Len(E.ws) = E.size \div 4 /\ E.v = Bits(1) /\ UNCHANGED p
    [] E.op = "Range" ->
         LET k == Len(E.tries) IN
         /\ Len(E.ws) = k * (E.size \div 4) /\ k > 0
         /\ \A j \in 1..k : /\ Try(Bits(j), E.tries[j].q, E.tries[j].r, E.n)
                            /\ Whole(Bits(j), E.tries[j].r, E.n) = (j = k)
         /\ E.v = IF E.down THEN Neg(E.tries[k].r) ELSE AddM(E.lo, E.tries[k].r)
         /\ "hi" \in DOMAIN E => E.n = SubM(E.hi, E.lo)
         /\ UNCHANGED p
    [] E.op = "Float" -> LET r == Flt(S0) IN E.v = r.bits /\ Pool(r.s)
    [] E.op = "Double" -> LET r == Dbl(S0) IN E.v = r.bits /\ Pool(r.s)
    \* scaled reals: v = lo + (hi - lo) r, in units of 2^-12 rounded; r likewise
    [] E.op = "Scaled" -> LET r == IF E.size = 4 THEN Flt(S0) ELSE Dbl(S0) IN
                          /\ Pool(r.s) /\ r.bits = E.r
                          /\ E.lo * 4096 <= E.v /\ E.v <= E.hi * 4096
                          /\ \E d \in -3..3 : E.v = ((E.lo * 4096) + (((E.hi - E.lo) * E.r12) \div 16)) + d
    [] E.op = "Perms" -> /\ Cardinality({E.res[j] : j \in DOMAIN E.res}) = Len(E.res)
                         /\ \A j \in DOMAIN E.res : \A x \in 1..E.n : \E i \in 1..E.n : E.res[j][i] = x
                         /\ UNCHANGED p
    [] E.op = "Sample" -> /\ \A h \in DOMAIN E.hist : EvenHist(E.hist[h]) /\ Len(E.hist[h]) > 1
                          /\ \A h \in DOMAIN E.ends : E.ends[h][1] >= -E.tol /\ E.ends[h][2] <= 1000000 + E.tol
                          /\ UNCHANGED p
    [] OTHER -> FALSE
\* the words drawn are the generator's next
Source == IF "ws" \in DOMAIN E THEN LET r == DrewAll(g, E.ws) IN r.ok /\ g' = r.g
          ELSE E.op = "Seed" \/ UNCHANGED g
StepOK == "nan" \notin DOMAIN E /\ Act /\ Source

EpStart(i) == Trace[i].op = "Seed" /\ Trace[i].first
TraceInit == \E i \in 1..NT : EpStart(i) /\ l = i /\ g = GenInit(Trace[i].gen, Trace[i].seed) /\ p = NoPool
More == l > 0 /\ l < NT /\ ~EpStart(l + 1)
TraceNext ==
  \/ More /\ StepOK /\ l' = l + 1
  \/ /\ More
     /\ ~ENABLED (StepOK /\ l' = l + 1)
     /\ Bad(l + 1)
     /\ l' = -l - 1 /\ UNCHANGED <<g, p>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
====================================================================================
