------------------------------------ MODULE Rand -----------------------------------
(* Words of bytes, most significant first; naturals of any length likewise.         *)
EXTENDS Integers, Sequences, Bitwise

Zeros(n) == [j \in 1..n |-> 0]
Pad(a, n) == Zeros(n - Len(a)) \o a
Low(a, n) == SubSeq(a, Len(a) - n + 1, Len(a))
High(a, n) == SubSeq(a, 1, Len(a) - n)
IsZero(a) == \A j \in DOMAIN a : a[j] = 0

RECURSIVE Lt(_, _)
Lt(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lt(Tail(a), Tail(b))
\* sum of equally long a and b and a carry, one byte longer
RECURSIVE AddC(_, _, _)
AddC(a, b, c) == IF a = <<>> THEN <<c>>
                 ELSE LET n == Len(a) s == a[n] + b[n] + c
                      IN  Append(AddC(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1), s \div 256), s % 256)
Add(a, b) == AddC(a, b, 0)
AddM(a, b) == Tail(Add(a, b))                          \* modulo the width
Neg(a) == AddM([j \in DOMAIN a |-> 255 - a[j]], Append(Zeros(Len(a) - 1), 1))
SubM(a, b) == AddM(a, Neg(b))
\* product: twice the width
Scale(a, d) == LET RECURSIVE S(_, _)
                   S(x, c) == IF x = <<>> THEN <<c>>
                              ELSE LET n == Len(x) s == x[n] * d + c IN Append(S(SubSeq(x, 1, n - 1), s \div 256), s % 256)
               IN  S(a, 0)
RECURSIVE MulR(_, _, _)
MulR(a, b, w) == IF b = <<>> THEN Zeros(w)
                 ELSE LET n == Len(b)
                      IN  AddM(Pad(Scale(a, b[n]), w),
                               Append(Tail(MulR(a, SubSeq(b, 1, n - 1), w)), 0))
Mul(a, b) == MulR(a, b, Len(a) + Len(b))
MulM(a, b) == Low(Mul(a, b), Len(a))
XorB(a, b) == [j \in DOMAIN a |-> a[j] ^^ b[j]]
P2(k) == CHOOSE x \in {1, 2, 4, 8, 16, 32, 64, 128} : x = 2 ^ k
ShL(a, k) == LET n == Len(a) m == k \div 8 r == P2(k % 8)
                 At(j) == IF j > n THEN 0 ELSE a[j]
             IN  [j \in 1..n |-> ((At(j + m) * r) % 256) + ((At(j + m + 1) * r) \div 256)]
ShR(a, k) == LET n == Len(a) m == k \div 8 r == P2(k % 8)
                 At(j) == IF j < 1 THEN 0 ELSE a[j]
             IN  [j \in 1..n |-> (At(j - m) \div r) + ((At(j - m - 1) * (256 \div r)) % 256)]
RotL(a, k) == [j \in DOMAIN a |-> ShL(a, k)[j] + ShR(a, 8 * Len(a) - k)[j]]

(* ---- the documented generators: state, and its successor with the word drawn ---- *)
LCA == <<88, 81, 244, 45, 76, 149, 127, 45>>           \* 6364136223846793005
LCC == <<20, 5, 123, 126, 247, 103, 129, 79>>          \* 1442695040888963407
LCNext(s) == AddM(MulM(LCA, s), LCC)
MTA == <<153, 8, 176, 223>>                            \* 0x9908B0DF
Twist(o0, o1, om) == LET s == <<(o0[1] - (o0[1] % 128)) + (o1[1] % 128)>> \o Tail(o1)
                         x == XorB(om, ShR(s, 1))
                     IN  IF s[4] % 2 = 1 THEN XorB(x, MTA) ELSE x
SMG == <<158, 55, 121, 185, 127, 74, 124, 21>>         \* 0x9E3779B97f4A7C15
SM1 == <<191, 88, 71, 109, 28, 228, 229, 185>>         \* 0xBF58476D1CE4E5B9
SM2 == <<148, 208, 73, 187, 19, 49, 17, 235>>          \* 0x94D049BB133111EB
SplitMix(x) == LET y == AddM(x, SMG)
                   a == MulM(XorB(y, ShR(y, 30)), SM1)
                   b == MulM(XorB(a, ShR(a, 27)), SM2)
               IN  [x |-> y, out |-> XorB(b, ShR(b, 31))]
RECURSIVE SplitN(_, _)
SplitN(x, n) == IF n = 0 THEN <<>> ELSE LET r == SplitMix(x) IN <<r.out>> \o SplitN(r.x, n - 1)
XOOut(s) == AddM(RotL(AddM(s[1], s[4]), 23), s[1])
XONext(s) == LET s3 == XorB(s[3], s[1]) s4 == XorB(s[4], s[2])
             IN  <<XorB(s[1], s4), XorB(s[2], s3), XorB(s3, ShL(s[2], 17)), RotL(s4, 45)>>

GenInit(gen, seed) ==
    CASE gen = "LC" -> [gen |-> gen, s |-> seed]
      [] gen = "MT" -> [gen |-> gen, s |-> seed, q |-> <<>>]
      [] gen = "XO" -> [gen |-> gen, s |-> SplitN(seed, 4)]
      [] gen = "XOE" -> [gen |-> "XO", s |-> [j \in 1..4 |-> SubSeq(seed, 8 * j - 7, 8 * j)]]
      [] OTHER -> [gen |-> gen, s |-> <<>>]
\* a generator drew word w: is that its next one, and what is its state then
Drew(g, w) ==
    CASE g.gen = "LC" -> LET n == LCNext(g.s) IN [ok |-> w = SubSeq(n, 1, 4), g |-> [g EXCEPT !.s = n]]
      [] g.gen = "MT" -> IF Len(g.q) < 624
                         THEN LET n == LCNext(g.s) IN [ok |-> w = SubSeq(n, 1, 4), g |-> [g EXCEPT !.s = n, !.q = Append(@, w)]]
                         ELSE [ok |-> w = Twist(g.q[1], g.q[2], g.q[398]), g |-> [g EXCEPT !.q = Append(Tail(@), w)]]
      [] g.gen = "XO" -> [ok |-> w = SubSeq(XOOut(g.s), 1, 4), g |-> [g EXCEPT !.s = XONext(@)]]
      [] OTHER -> [ok |-> TRUE, g |-> g]
RECURSIVE DrewAll(_, _)
DrewAll(g, ws) == IF ws = <<>> THEN [ok |-> TRUE, g |-> g]
                  ELSE LET r == Drew(g, Head(ws)) IN IF r.ok THEN DrewAll(r.g, Tail(ws)) ELSE r

(* ---- coins come from a pool of 32, refilled by a word ---- *)
NoPool == [w |-> Zeros(4), left |-> 0]
\* s = [p |-> pool, ws |-> words to come, short |-> FALSE]; a coin, and s afterwards
\* (short: more words are wanted than were drawn)
Need(s, n) == IF Len(s.ws) >= n THEN s ELSE [s EXCEPT !.short = TRUE, !.ws = [j \in 1..n |-> Zeros(4)]]
Flip(s) == LET t == IF s.p.left = 0 THEN LET u == Need(s, 1) IN [u EXCEPT !.p = [w |-> Head(u.ws), left |-> 32], !.ws = Tail(u.ws)] ELSE s
           IN  [coin |-> t.p.w[4] % 2 = 1, s |-> [t EXCEPT !.p.w = ShR(@, 1), !.p.left = @ - 1]]
\* how many tails before a head, at most n
RECURSIVE Tails(_, _)
Tails(s, n) == IF n = 0 THEN [k |-> 0, s |-> s]
               ELSE LET f == Flip(s) IN IF f.coin THEN [k |-> 0, s |-> f.s]
                                        ELSE LET r == Tails(f.s, n - 1) IN [k |-> r.k + 1, s |-> r.s]
(* a real: exponent from coins, mantissa from words, a coin for the border.          *)
(* bits of the value, and what is left                                              *)
Real(s0, eb, top, nw, drop) ==
    LET t0 == Tails(s0, top)                                \* top = exponent of 1/2
        t == [t0 EXCEPT !.s = Need(t0.s, nw)]
        m == LET RECURSIVE C(_)
                 C(j) == IF j = 0 THEN <<>> ELSE C(j - 1) \o t.s.ws[j]
             IN  ShR(C(nw), drop)
        s1 == [t.s EXCEPT !.ws = SubSeq(@, nw + 1, Len(@))]
        f == Flip(s1)
        e == top - t.k + (IF IsZero(m) /\ f.coin THEN 1 ELSE 0)
        w == 4 * nw
        \* exponent into the bits above the mantissa
        E0 == Pad(<<e \div 256, e % 256>>, w)
    IN  [bits |-> AddM(ShL(E0, 8 * w - 1 - eb), m), s |-> IF IsZero(m) THEN f.s ELSE s1]
Flt(s) == Real(s, 8, 126, 1, 9)
Dbl(s) == Real(s, 11, 1022, 2, 12)

(* ---- a draw from 0..n-1: words until one lies in a whole chunk of n ---- *)
Try(bits, q, r, n) == /\ Lt(r, n)
                      /\ LET p == Mul(q, n) w == Len(n) IN
                           /\ IsZero(High(p, w))
                           /\ Add(Low(p, w), r) = <<0>> \o bits
Whole(bits, r, n) == Add(SubM(bits, r), SubM(n, Append(Zeros(Len(n) - 1), 1)))[1] = 0
====================================================================================
