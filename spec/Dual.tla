---------------------------------- MODULE Dual -----------------------------------
(* Dual numbers <<x, dx>> over the integers modulo a prime p, and over the integers. *)
(* A function of t is carried as its value and derivative at some t.                 *)
EXTENDS Integers, Sequences
Inv(x, p) == CHOOSE y \in 1..(p - 1) : (x * y) % p = 1
DMod(a, p) == <<a[1] % p, a[2] % p>>
DAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
DSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
DMul(a, b) == <<a[1] * b[1], (a[1] * b[2]) + (a[2] * b[1])>>
DNeg(a) == <<-a[1], -a[2]>>
DInv(b, p) == LET i == Inv(b[1], p) IN DMod(<<i, -(b[2] * ((i * i) % p))>>, p)
DDiv(a, b, p) == DMod(DMul(a, DInv(b, p)), p)
DConst(c) == <<c, 0>>

(* duals of duals: <<x.x, x.dx, dx.x, dx.dx>>, a product of two infinitesimals last  *)
EMul(a, b) == <<a[1] * b[1], (a[1] * b[2]) + (a[2] * b[1]), (a[1] * b[3]) + (a[3] * b[1]),
                ((a[1] * b[4]) + (a[4] * b[1])) + ((a[2] * b[3]) + (a[3] * b[2]))>>
EMod(a, p) == [i \in 1..4 |-> a[i] % p]
ELift(a) == <<a[1], a[2], 0, 0>>

(* kinks and jumps: what each policy may answer where the derivative from the left,  *)
(* l, and from the right, r, may differ; numbers are <<0, n>> in halves               *)
Num(n) == <<0, n>>
NaNs == <<1, 0>>
PosInf == <<2, 0>>
NegInf == <<3, 0>>
Resolve(policy, l, r) ==
  CASE policy = "NaN" -> IF l = r THEN {NaNs, Num(2 * l)} ELSE {NaNs}
    [] policy = "Left" -> {Num(2 * l)}
    [] policy = "Right" -> {Num(2 * r)}
    [] policy = "Average" -> {Num(l + r)}
    [] OTHER -> {IF l = r THEN Num(2 * l) ELSE IF r > l THEN PosInf ELSE NegInf}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* the functions' derivatives where x is a tie
MaxAt(policy, da, db) == Resolve(policy, Min2(da, db), Max2(da, db))
MinAt(policy, da, db) == Resolve(policy, Max2(da, db), Min2(da, db))
\* for falling arguments, left and right may be those of the argument or of the function
AbsAt(policy, d) == Resolve(policy, -d, d) \cup Resolve(policy, Min2(-d, d), Max2(-d, d))
StepAt(policy, d) == CASE policy = "NaN" -> {NaNs}
                       [] policy = "Inf" -> {IF d > 0 THEN PosInf ELSE NegInf}
                       [] OTHER -> {Num(0)}
==================================================================================
