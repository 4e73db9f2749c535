-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Integers of any size.                                                   *)
(*                                                                         *)
(* TLC's integers are 32 bits wide, and the library's are up to 64 with    *)
(* exact products of 128.  A number is here either a TLC integer or, when  *)
(* it does not fit one, the string of its decimal numeral.  The operators  *)
(* below are their own meaning on numbers TLC can add and multiply; the    *)
(* class java/Num.java evaluates them on all numbers (TLC replaces an      *)
(* operator by the method of that name of the class named as the module).  *)
(* NumSelf.tla compares the two on the numbers both can handle.            *)
(***************************************************************************)
EXTENDS Integers

NNorm(a) == a                           \* the normal form of a number
NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
NNeg(a) == -a
NAbs(a) == IF a < 0 THEN -a ELSE a
NSgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
NLt(a, b) == a < b
NLe(a, b) == a <= b
NEq(a, b) == a = b
NIn(a, lo, hi) == lo <= a /\ a <= hi

\* TLA+'s own \div and % round toward minus infinity for positive divisors.
NFloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)

\* C++ division rounds toward zero, its remainder has the dividend's sign.
NQuot(a, b) == NSgn(a) * NSgn(b) * (NAbs(a) \div NAbs(b))
NRem(a, b) == a - b * NQuot(a, b)

RECURSIVE NGcd(_, _)
NGcd(a, b) == IF b = 0 THEN NAbs(a) ELSE NGcd(b, NRem(a, b))

RECURSIVE NPow(_, _)
NPow(a, e) == IF e = 0 THEN 1 ELSE a * NPow(a, e - 1)
=============================================================================
