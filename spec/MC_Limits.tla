------------------------------ MODULE MC_Limits ------------------------------
(***************************************************************************)
(* The extremes over every word lo..hi up to Max: nothing lies beyond them *)
(* and they are attained.                                                  *)
(***************************************************************************)
EXTENDS Limits
CONSTANTS Max

VARIABLES lo, hi, n, d
vars == <<lo, hi, n, d>>
Init == /\ hi \in 1..Max /\ lo \in {0, -hi - 1}
        /\ n \in lo..hi /\ d = lo
Next == d < hi /\ d' = d + 1 /\ UNCHANGED <<lo, hi, n>>

Fraction == d # 0 /\ d # -hi - 1 /\ Proper(<<n, d>>, lo, hi)
NothingBeyond == Fraction => Within(<<n, d>>, lo, hi)
Attained == \A x \in {Greatest(lo, hi), Least(lo, hi), Smallest(lo, hi)} :
              /\ x[1] \in lo..hi /\ x[2] \in lo..hi
              /\ Within(x, lo, hi) /\ Proper(x, lo, hi)
\* The decimal digits: every number of that many fits, one of more does not.
DigitsRight == /\ \A i \in 0..NPow(10, Digits10(hi)) - 1 : i <= hi
               /\ NPow(10, Digits10(hi) + 1) - 1 > hi
==============================================================================
