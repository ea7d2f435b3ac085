-------------------------------- MODULE StoreModel ----------------------------------
(* Every history of a few holders. The counts of references, and the deep copies, of   *)
(* an implementation beside the sharing of module Store.                              *)
EXTENDS Store
CONSTANTS NH, Sizes, Values, Kinds
VARIABLES kind, st, refs, twin
vars == <<kind, st, refs, twin>>
H == 1..NH
Zero(n) == [i \in 1..n |-> 0]
None == [hold |-> [h \in H |-> 0], mem |-> [b \in {} |-> <<>>]]

Init == kind \in Kinds /\ st = None /\ refs = [b \in {} |-> 0] /\ twin = [h \in H |-> <<>>]

\* the implementation's count: one up for who gets the block, one down for who leaves it
Up(r, b) == IF b <= 0 THEN r ELSE [x \in DOMAIN r \cup {b} |-> IF x = b THEN (IF b \in DOMAIN r THEN r[b] ELSE 0) + 1 ELSE r[x]]
Down(r, b) == IF b <= 0 THEN r
              ELSE IF r[b] = 1 /\ kind # "wrap" THEN [x \in DOMAIN r \ {b} |-> r[x]]
              ELSE [r EXCEPT ![b] = @ - 1]
\* a step from st to s2, seen by the counts
Track(s2) == LET Ch == {h \in H : st.hold[h] # s2.hold[h]}
                 RECURSIVE U(_, _)
                 U(r, S) == IF S = {} THEN r ELSE LET h == CHOOSE x \in S : TRUE IN U(Up(r, s2.hold[h]), S \ {h})
                 RECURSIVE D(_, _)
                 D(r, S) == IF S = {} THEN r ELSE LET h == CHOOSE x \in S : TRUE IN D(Down(r, st.hold[h]), S \ {h})
             IN  D(U(refs, Ch), Ch)
Go(s2) == st' = s2 /\ refs' = Track(s2) /\ UNCHANGED kind

DoMake == \E h \in H, n \in Sizes :
            ~Live(st, h) /\ st.hold[h] = 0 /\ Go(Make(kind, st, h, Zero(n))) /\ twin' = [twin EXCEPT ![h] = Zero(n)]
DoCopy == \E h, g \in H : Live(st, g) /\ h # g /\ Go(Copy(kind, st, h, g)) /\ twin' = [twin EXCEPT ![h] = twin[g]]
DoMove == \E h, g \in H : Live(st, g) /\ h # g /\ Go(Move(kind, st, h, g)) /\ twin' = [twin EXCEPT ![h] = twin[g]]
DoWrite == \E h \in H : Live(st, h) /\ \E i \in DOMAIN Vals(st, h), v \in Values :
             /\ Go(Write(st, h, i, v))
             /\ twin' = [k \in H |-> IF Live(st, k) /\ st.hold[k] = st.hold[h] THEN [twin[k] EXCEPT ![i] = v] ELSE twin[k]]
DoDrop == \E h \in H : st.hold[h] # 0 /\ Go(Drop(kind, st, h)) /\ twin' = [twin EXCEPT ![h] = <<>>]
Next == DoMake \/ DoCopy \/ DoMove \/ DoWrite \/ DoDrop
Spec == Init /\ [][Next]_vars

Sole == kind \in {"own", "local"} => \A h, g \in H : Live(st, h) /\ Live(st, g) /\ h # g => st.hold[h] # st.hold[g]
Allocated == \A h \in H : Live(st, h) => st.hold[h] \in Blocks(st)
NoLeak == kind # "wrap" => \A b \in Blocks(st) : Holders(st, b) # {}
Counted == \A b \in Blocks(st) : refs[b] = Cardinality(Holders(st, b))
CountedOnly == kind # "wrap" => DOMAIN refs = Blocks(st)
Contents == \A h \in H : Live(st, h) => Vals(st, h) = twin[h]
AllGone == (\A h \in H : st.hold[h] = 0) /\ kind # "wrap" => Elements(st) = 0
\* the caller's arrays grow without end
Few == Cardinality(Blocks(st)) <= NH
===================================================================================
