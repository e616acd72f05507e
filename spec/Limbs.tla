------------------------------- MODULE Limbs -------------------------------
(***************************************************************************)
(* Integers of up to 40 decimal digits as 5 limbs in base 10^8 (TLC's own  *)
(* integers have 32 bits).  Limbs 1..4 are in 0..Base-1, limb 5 carries    *)
(* the sign, so that equality of numbers is equality of tuples.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 100000000

Norm(s) ==
  LET c1 == s[1] \div Base
      t2 == s[2] + c1   c2 == t2 \div Base
      t3 == s[3] + c2   c3 == t3 \div Base
      t4 == s[4] + c3   c4 == t4 \div Base
  IN  << s[1] % Base, t2 % Base, t3 % Base, t4 % Base, s[5] + c4 >>

Num(n) == Norm(<<n, 0, 0, 0, 0>>)
Zero == <<0, 0, 0, 0, 0>>
Plus(a, b)  == Norm([i \in 1..5 |-> a[i] + b[i]])
Minus(a, b) == Norm([i \in 1..5 |-> a[i] - b[i]])
IsZero(a) == a = Zero
Neg(a) == a[5] < 0

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Plus(Head(s), SumSeq(Tail(s)))
=============================================================================
