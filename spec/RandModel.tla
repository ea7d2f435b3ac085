---------------------------------- MODULE RandModel --------------------------------
(* The methods of sampling, scaled down so that they can be weighed exactly: for    *)
(* every range of W-bit words, every T exponents and M bits of mantissa, and every  *)
(* shuffle, each result has exactly the probability claimed; and a sequence of      *)
(* draws of words and coins depends on nothing but the seed and the draws since.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, T, M, NS, Seeds, Steps
VARIABLES n, lo, seed, pos, pool, ops, outs
vars == <<n, lo, seed, pos, pool, ops, outs>>
Words == 0..(2 ^ W - 1)

(* ---- ranges: a word counts unless its chunk of n passes the last word ---- *)
Counts(w, m) == (w - (w % m)) + (m - 1) < 2 ^ W
Even == /\ \A v \in 0..(n - 1) :
              Cardinality({w \in Words : Counts(w, n) /\ w % n = v}) = Cardinality({w \in Words : Counts(w, n)}) \div n
        /\ 2 * Cardinality({w \in Words : Counts(w, n)}) > 2 ^ W - n
        /\ Cardinality({w \in Words : Counts(w, n)}) >= 2 ^ (W - 1)
\* from lo, n steps up, in two's complement
Signed(x) == IF x < 2 ^ (W - 1) THEN x ELSE x - 2 ^ W
InRange == LET hi == lo + n IN
    hi < 2 ^ (W - 1) => {Signed(((lo + 2 ^ W) + v) % 2 ^ W) : v \in 0..(n - 1)} = lo..(hi - 1)

(* ---- reals: weights in units of 2^-(T+M+1) ---- *)
\* k tails, then a head unless k = T
Outs == {<<k, m, c>> : k \in 0..T, m \in 0..(2 ^ M - 1), c \in {0, 1}}
Weight(o) == IF o[1] = T THEN 1 ELSE 2 ^ (T - 1 - o[1])
ExpOf(o) == (T - o[1]) + (IF o[2] = 0 THEN o[3] ELSE 0)
ValueOf(o) == IF ExpOf(o) = 0 THEN o[2] ELSE (2 ^ M + o[2]) * 2 ^ (ExpOf(o) - 1)
One == 2 ^ (M + T)
Values == 0..(2 ^ M - 1) \cup {(2 ^ M + m) * 2 ^ (e - 1) : m \in 0..(2 ^ M - 1), e \in 1..T} \cup {One}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Prev(v) == IF v = 0 THEN 0 ELSE MaxOf({x \in Values : x < v})
Succ(v) == IF v = One THEN One ELSE MinOf({x \in Values : x > v})
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Weight(x) + Sum(S \ {x})
Rounded == \A v \in Values : Sum({o \in Outs : ValueOf(o) = v}) = Succ(v) - Prev(v)
OnlyValues == \A o \in Outs : ValueOf(o) \in Values

(* ---- shuffles: item i changes places with one of the items from i on ---- *)
RECURSIVE Shuffle(_, _, _)
Shuffle(a, i, c) == IF i > Len(a) THEN a
                    ELSE Shuffle([a EXCEPT ![i] = a[i + c[i]], ![i + c[i]] = a[i]], i + 1, c)
Choices(k) == {c \in [1..k -> 0..(k - 1)] : \A i \in 1..k : c[i] <= k - i}
Fair(k) == LET R == {Shuffle([i \in 1..k |-> i], 1, c) : c \in Choices(k)}
           IN  /\ Cardinality(R) = Cardinality(Choices(k))
               /\ \A r \in R : {r[i] : i \in 1..k} = 1..k

(* ---- histories: <<s, j>> is word j of the sequence of seed s, <<s, j, b>> its bit b *)
Init == /\ n \in 1..(2 ^ W) /\ lo \in -(2 ^ (W - 1))..(2 ^ (W - 1) - 1)
        /\ seed \in Seeds /\ pos = 0 /\ pool = <<0, 0>> /\ ops = <<>> /\ outs = <<>>
Word == /\ outs' = Append(outs, <<seed, pos>>) /\ pos' = pos + 1 /\ ops' = Append(ops, "w")
        /\ UNCHANGED <<seed, pool>>
Coin == /\ pool' = IF pool[2] = 0 THEN <<pos, W - 1>> ELSE <<pool[1], pool[2] - 1>>
        /\ pos' = IF pool[2] = 0 THEN pos + 1 ELSE pos
        /\ outs' = Append(outs, <<seed, pool'[1], (W - 1) - pool'[2]>>) /\ ops' = Append(ops, "c")
        /\ UNCHANGED seed
Reseed == /\ seed' \in Seeds /\ pos' = 0 /\ pool' = <<0, 0>> /\ ops' = <<>> /\ outs' = <<>>
Next == ((Len(ops) < Steps /\ (Word \/ Coin)) \/ Reseed) /\ UNCHANGED <<n, lo>>
Spec == Init /\ [][n = 1 /\ lo = 0 /\ Next]_vars

(* what the draws so far give from the seed alone *)
RECURSIVE Fresh(_, _, _, _)
Fresh(o, p, b, left) ==
    IF o = <<>> THEN <<>>
    ELSE IF Head(o) = "w" THEN <<<<seed, p>>>> \o Fresh(Tail(o), p + 1, b, left)
    ELSE IF left = 0 THEN <<<<seed, p, 0>>>> \o Fresh(Tail(o), p + 1, p, W - 1)
    ELSE <<<<seed, b, W - left>>>> \o Fresh(Tail(o), p, b, left - 1)
Repeatable == outs = Fresh(ops, 0, 0, 0)
\* no bit is used twice
Once == \A i, j \in DOMAIN outs : i # j => outs[i] # outs[j] /\ (Len(outs[i]) = 2 => Len(outs[j]) = 2 \/ SubSeq(outs[j], 1, 2) # outs[i])
Weighed == (n = 1 /\ lo = 0 /\ ops = <<>>) => Rounded /\ OnlyValues /\ \A k \in 1..NS : Fair(k)
====================================================================================
