------------------------------- MODULE Limits --------------------------------
(***************************************************************************)
(* The extremes of the fractions over integers lo..hi, and the traits of   *)
(* the representations.  lo is 0 or -hi-1.                                 *)
(***************************************************************************)
EXTENDS Policy

Greatest(lo, hi) == <<hi, 1>>
Least(lo, hi) == <<lo, 1>>
Smallest(lo, hi) == <<1, hi>>

\* x as a fraction whose components the library can negate, or which needs it
\* not because its denominator is positive.
Proper(x, lo, hi) == NSgn(x[2]) > 0 \/ (NLt(NNeg(hi), x[1]) \/ NEq(NNeg(hi), x[1]))
Within(x, lo, hi) ==
  /\ RLe(x, Greatest(lo, hi)) /\ RLe(Least(lo, hi), x)
  /\ RSgn(x) > 0 => RLe(Smallest(lo, hi), x)

(***************************** traits **************************************)
\* Decimal digits any number of which is representable.
RECURSIVE Digits10From(_, _)
Digits10From(hi, k) == IF NLe(NSub(NPow(10, k + 1), 1), hi) THEN Digits10From(hi, k + 1) ELSE k
Digits10(hi) == Digits10From(hi, 0)

\* is_specialized, is_signed, is_integer, is_exact, has_infinity,
\* has_quiet_NaN, has_signaling_NaN, is_iec559, is_bounded, is_modulo, traps,
\* has_denorm_loss, tinyness_before, digits, digits10, max_digits10, radix,
\* min_exponent, min_exponent10, max_exponent, max_exponent10
Traits(rep) ==
  << TRUE, RepSigned(rep), FALSE, TRUE, FALSE, TRUE, FALSE, FALSE, TRUE,
     ~RepSigned(rep), FALSE, FALSE, FALSE, Digits(rep), Digits10(RepMax(rep)), 0, 2,
     0, 0, 0, 0 >>
==============================================================================
