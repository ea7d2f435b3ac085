-------------------------------- MODULE SipHash -----------------------------------
(* SipHash-2-4.  A 64-bit word is four 16-bit limbs, the lowest first.               *)
EXTENDS Integers, Sequences, Bitwise, TLC

H == 65536
Limb == 1..4
Pow == [k \in 0..16 |-> 2^k]
\* bitwise, by limb
X(a, b) == [j \in Limb |-> a[j] ^^ b[j]]
Add(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div H
      s3 == a[3] + b[3] + s2 \div H
      s4 == a[4] + b[4] + s3 \div H
  IN  <<s1 % H, s2 % H, s3 % H, s4 % H>>
\* rotation to the left by n bits
Rot(a, n) ==
  LET q == n \div 16  r == n % 16
      at(j) == a[((j - 1 - q) % 4) + 1]
  IN  [j \in Limb |-> (at(j) % Pow[16 - r]) * Pow[r] + at(j - 1) \div Pow[16 - r]]

Round(v) ==
  LET a0 == TLCEval(Add(v[1], v[2]))
      b1 == TLCEval(X(Rot(v[2], 13), a0))
      c0 == TLCEval(Rot(a0, 32))
      a2 == TLCEval(Add(v[3], v[4]))
      b3 == TLCEval(X(Rot(v[4], 16), a2))
      d0 == TLCEval(Add(c0, b3))
      d3 == TLCEval(X(Rot(b3, 21), d0))
      e2 == TLCEval(Add(a2, b1))
      d1 == TLCEval(X(Rot(b1, 17), e2))
  IN  <<d0, d1, TLCEval(Rot(e2, 32)), d3>>
RECURSIVE Rounds(_, _)
Rounds(v, n) == IF n = 0 THEN v ELSE Rounds(Round(v), n - 1)

\* eight bytes, the lowest first
Word(b, at) == [j \in Limb |-> b[at + 2*j - 1] + 256 * b[at + 2*j]]
Low(n) == <<n, 0, 0, 0>>
Mix(v, m) == LET w == Rounds([v EXCEPT ![4] = X(@, m)], 2) IN [w EXCEPT ![1] = X(@, m)]
Sum(v) == X(X(v[1], v[2]), X(v[3], v[4]))

RECURSIVE Absorb(_, _, _)
Absorb(v, msg, at) ==
  IF Len(msg) - at >= 8 THEN Absorb(TLCEval(Mix(v, Word(msg, at))), msg, at + 8)
  ELSE LET rest == [j \in 1..8 |-> IF j = 8 THEN Len(msg) % 256 ELSE IF at + j <= Len(msg) THEN msg[at + j] ELSE 0]
       IN  Mix(v, Word(rest, 0))

Start(key, wide) ==
  LET k0 == Word(key, 0)  k1 == Word(key, 8)
      v1 == X(<<28525, 28260, 29281, 25711>>, k1)
  IN  << X(<<25973, 28787, 28005, 29551>>, k0),
         IF wide THEN X(v1, Low(238)) ELSE v1,
         X(<<29281, 28261, 26469, 27769>>, k0),
         X(<<25971, 31092, 25698, 29797>>, k1) >>
\* the digest: one word, or two if wide
Sip(key, msg, wide) ==
  LET v == TLCEval(Absorb(TLCEval(Start(key, wide)), msg, 0))
      w == TLCEval(Rounds([v EXCEPT ![3] = X(@, Low(IF wide THEN 238 ELSE 255))], 4))
  IN  IF wide THEN << Sum(w), Sum(Rounds([w EXCEPT ![2] = X(@, Low(221))], 4)) >>
      ELSE << Sum(w) >>
===================================================================================
