--------------------------- MODULE MC_Denominator ----------------------------
(***************************************************************************)
(* Denominator literals on a small word: every shape of up to Depth unary  *)
(* operators, every literal, every numerator and every fraction.           *)
(***************************************************************************)
EXTENDS Denominator
CONSTANTS Max, Depth
Word == -Max..Max

VARIABLES shape, x, v
vars == <<shape, x, v>>
Init == v \in 0..Max /\ shape = <<>> /\ x = Lit(v)
Next == /\ Len(shape) < Depth
        /\ \/ shape' = <<"+">> \o shape /\ x' = Pos(x)
           \/ shape' = <<"-">> \o shape /\ x' = Neg(x)
        /\ UNCHANGED v
Spec == Init /\ [][Next]_vars

Minuses == Cardinality({i \in DOMAIN shape : shape[i] = "-"})
\* The value is what the spelling says, the type as soon as a minus occurs.
Denotes == /\ x = Shaped(shape, v)
           /\ x.v = IF Minuses % 2 = 1 THEN -v ELSE v
           /\ x.signed = (Minuses > 0)
\* n/d_fr is the quotient of n and d, undefined for d = 0.
OverDenotes == \A n \in Word :
  LET f == Over(n, x)
  IN Defined(f) = (x.v # 0) /\ (x.v # 0 => Same(f, RDiv(<<n, 1>>, <<x.v, 1>>)))
QuotientDenotes == \A n \in Word, d \in Word :
  LET q == Quotient(<<n, d>>, x).out
  IN IF d = 0 \/ x.v = 0 THEN Identical(q, Undefined)
     ELSE Same(q, RDiv(<<n, d>>, <<x.v, 1>>)) /\ PromisedForm(Default, q)
\* Going through a fraction made with _fr first is the same as the quotient.
Chains == \A n \in Word :
  Same(Quotient(<<n, 1>>, x).out, Over(n, x))
==============================================================================
