------------------------------- MODULE PermModel -------------------------------
EXTENDS Perm, Json
CONSTANT K        \* size
VARIABLE act
vars == <<pm, act>>
View == pm
Did(op, s, t, u, a, b, q) == act' = [op |-> op, s |-> s, t |-> t, u |-> u, a |-> a, b |-> b, q |-> q]

Perms == {q \in [1..K -> 0..(K - 1)] : IsPerm(q)}
Init == pm = [s \in Slots |-> Obj(Ident(K), 1)] /\ act = [op |-> "Init", s |-> 0, t |-> 0, u |-> 0, a |-> 0, b |-> 0, q |-> <<>>]
Next == \E s \in Slots :
  \/ SetIdentity(s) /\ Did("SetIdentity", s, s, s, 0, 0, <<>>)
  \/ \E q \in Perms : \/ SetRowSources(s, q) /\ Did("SetRowSources", s, s, s, 0, 0, q)
                      \/ SetRowSources(s, q) /\ Did("SetColDestinations", s, s, s, 0, 0, q)
                      \/ SetColSources(s, q) /\ Did("SetColSources", s, s, s, 0, 0, q)
                      \/ SetColSources(s, q) /\ Did("SetRowDestinations", s, s, s, 0, 0, q)
  \/ \E a \in 0..(K - 1), b \in 0..(K - 1) :
       \/ SwapRows(s, a, b) /\ Did("SwapRows", s, s, s, a, b, <<>>)
       \/ SwapCols(s, a, b) /\ Did("SwapCols", s, s, s, a, b, <<>>)
  \/ Transpose(s) /\ Did("Transpose", s, s, s, 0, 0, <<>>)
  \/ GetSign(s) /\ Did("Sign", s, s, s, 0, 0, <<>>)
  \/ UNCHANGED pm /\ Did("Apply", s, s, s, 0, 0, <<>>)
  \/ \E t \in Slots : \/ Copy(s, t) /\ Did("Copy", s, t, s, 0, 0, <<>>)
                      \/ TransposeOf(s, t) /\ Did("TransposeOf", s, t, s, 0, 0, <<>>)
                      \/ TransposeOf(s, t) /\ Did("InvOf", s, t, s, 0, 0, <<>>)
                      \/ \E u \in Slots : Mul(s, t, u) /\ Did("Mul", s, t, u, 0, 0, <<>>)
Spec == Init /\ [][Next]_vars

\* algebraic laws of the abstraction itself
Laws == \A s \in Slots, t \in Slots :
   LET p == pm[s].src q == pm[t].src IN
     /\ Compose(p, Inverse(p)) = Ident(K) /\ Compose(Inverse(p), p) = Ident(K)
     /\ Inverse(Compose(p, q)) = Compose(Inverse(q), Inverse(p))
     /\ Sign(Compose(p, q)) = Sign(p) * Sign(q)
     /\ Sign(Inverse(p)) = Sign(p)
Emit == PrintT(ToJson([p |-> pm, a |-> act', q |-> pm']))
================================================================================
