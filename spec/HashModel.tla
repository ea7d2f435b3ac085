-------------------------------- MODULE HashModel ---------------------------------
(* The published vectors of SipHash-2-4, and its words: rotations and sums of limbs. *)
EXTENDS SipHash
VARIABLE n
Key == [j \in 1..16 |-> j - 1]
Msg(k) == [j \in 1..k |-> j - 1]
\* from the reference implementation: keys 00..0f, messages 00..(k-1)
Vectors64 == << << 0, <<3633, 56590, 56135, 29295>> >>, << 1, <<26621, 37852, 14789, 29944>> >>, << 8, <<9314, 39571, 62841, 37877>> >>, << 15, <<17893, 18878, 51809, 41257>> >> >>
Vectors128 == << << 0, << <<33187, 1151, 9658, 59048>>, <<63085, 5234, 21959, 37634>> >> >> >>
Init == n = 0
Next == n < 40 /\ n' = n + 1
Spec == Init /\ [][Next]_n
W(k) == <<(k * 7919) % H, (k * 104729) % H, (k * 31337) % H, (k * 27644) % H>>
Known == \A j \in DOMAIN Vectors64 : Sip(Key, Msg(Vectors64[j][1]), FALSE) = << Vectors64[j][2] >>
KnownWide == \A j \in DOMAIN Vectors128 : Sip(Key, Msg(Vectors128[j][1]), TRUE) = Vectors128[j][2]
Turns == /\ \A s \in 1..63 : Rot(Rot(W(n), s), 64 - s) = W(n)
         /\ Rot(W(n), 32) = <<W(n)[3], W(n)[4], W(n)[1], W(n)[2]>>
         /\ Rot(W(n), 1) = Add(Add(W(n), W(n)), Low(IF W(n)[4] >= 32768 THEN 1 ELSE 0))
\* messages that are not the same bytes do not share a digest (on a handful)
Apart == \A a, b \in 0..n : a # b /\ n = 20 => Sip(Key, Msg(a), TRUE) # Sip(Key, Msg(b), TRUE)
===================================================================================
