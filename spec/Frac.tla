-------------------------------- MODULE Frac --------------------------------
(***************************************************************************)
(* Fractions as the library shows them to a user: a pair <<n, d>> of a     *)
(* numerator and a denominator, neither reduced nor sign-normalized by     *)
(* itself, together with the exact rational number the pair denotes.       *)
(* d = 0 is "undefined".                                                   *)
(*                                                                         *)
(* Operators named R... work on exact rationals, represented by any pair   *)
(* that denotes them; two pairs are compared with REq, never with "=".     *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets

Undefined == <<0, 0>>
IsZeroN(x) == NSgn(x) = 0

Defined(x) == NSgn(x[2]) # 0

(***************************** exact rationals *****************************)
RSgn(a) == NSgn(a[1]) * NSgn(a[2])
RInt(i) == <<i, 1>>
RNeg(a) == <<NNeg(a[1]), a[2]>>
RAdd(a, b) == <<NAdd(NMul(a[1], b[2]), NMul(b[1], a[2])), NMul(a[2], b[2])>>
RSub(a, b) == <<NSub(NMul(a[1], b[2]), NMul(b[1], a[2])), NMul(a[2], b[2])>>
RMul(a, b) == <<NMul(a[1], b[1]), NMul(a[2], b[2])>>
RDiv(a, b) == <<NMul(a[1], b[2]), NMul(a[2], b[1])>>      \* for b # 0
REq(a, b) == NEq(NMul(a[1], b[2]), NMul(b[1], a[2]))
RLt(a, b) == RSgn(RSub(a, b)) < 0
RLe(a, b) == RSgn(RSub(a, b)) <= 0
RAbs(a) == <<NAbs(a[1]), NAbs(a[2])>>

(* The same value, or both undefined: what an observer may conclude from   *)
(* two fractions without looking at their components.                      *)
Same(x, y) == IF Defined(x) THEN Defined(y) /\ REq(x, y) ELSE ~Defined(y)

Identical(x, y) == NEq(x[1], y[1]) /\ NEq(x[2], y[2])

(***************************** integer parts *******************************)
RTrunc(a) == NQuot(a[1], a[2])
RFloor(a) == NFloorDiv(a[1], a[2])
RCeil(a) == NNeg(NFloorDiv(NNeg(a[1]), a[2]))
RRound(a) == NFloorDiv(NAdd(NMul(2, a[1]), a[2]), NMul(2, a[2]))  \* halves up
RIsInt(a) == NSgn(NRem(a[1], a[2])) = 0

\* The same four by their defining property instead of by a formula.
IsTrunc(k, a) == /\ RLe(RAbs(RInt(k)), RAbs(a))
                 /\ RLt(RSub(RAbs(a), RAbs(RInt(k))), <<1, 1>>)
                 /\ NSgn(k) # 0 => NSgn(k) = RSgn(a)
IsFloor(k, a) == RLe(RInt(k), a) /\ RLt(a, RInt(NAdd(k, 1)))
IsCeil(k, a) == RLe(a, RInt(k)) /\ RLt(RInt(NSub(k, 1)), a)
IsRound(k, a) == LET e == RSub(RInt(k), a)           \* k - a in (-1/2, 1/2]
                 IN RLt(<<-1, 2>>, e) /\ RLe(e, <<1, 2>>)

(* Remainder of truncated division.                                        *)
RMod(a, b) == RSub(a, RMul(b, RInt(RTrunc(RDiv(a, b)))))
IsMod(m, a, b) == /\ RLt(RAbs(m), RAbs(b))
                  /\ RSgn(m) # 0 => RSgn(m) = RSgn(a)
                  /\ RIsInt(RDiv(RSub(a, m), b))

(***************************** forms ***************************************)
LowestTerms(x) == Defined(x) /\ NEq(NGcd(x[1], x[2]), 1)
Canonical(x) == LowestTerms(x) /\ NSgn(x[2]) > 0

ReduceIgnoreSigns(x) ==
  IF Defined(x)
  THEN LET g == NGcd(x[1], x[2]) IN <<NQuot(x[1], g), NQuot(x[2], g)>>
  ELSE Undefined

NormalizeSigns(x) ==
  IF NSgn(x[2]) > 0 THEN <<NNorm(x[1]), NNorm(x[2])>>
                    ELSE <<NNeg(x[1]), NNeg(x[2])>>

Reduce(x) == NormalizeSigns(ReduceIgnoreSigns(x))

ReduceMode(x, mode) == CASE mode = "no" -> x
                         [] mode = "ignore" -> ReduceIgnoreSigns(x)
                         [] mode = "norm" -> Reduce(x)

(***************************** queries *************************************)
\* By value; every one of them is false for an undefined fraction.
QPositive(x) == Defined(x) /\ RSgn(x) > 0
QNegative(x) == Defined(x) /\ RSgn(x) < 0
QZero(x) == Defined(x) /\ RSgn(x) = 0
QNonNegative(x) == Defined(x) /\ RSgn(x) >= 0
QNonPositive(x) == Defined(x) /\ RSgn(x) <= 0
QInteger(x) == Defined(x) /\ RIsInt(x)
QUnit(x) == Defined(x) /\ RSgn(x) # 0 /\ RIsInt(<<x[2], x[1]>>)
QProper(x) == Defined(x) /\ RLt(RAbs(x), <<1, 1>>)
\* By form.
QReducedIgnoreSigns(x) == LowestTerms(x)
QReduced(x) == Canonical(x)

(***************************** representations *****************************)
(* Bounds of the integer representations.  The least value of a signed one *)
(* is left out: its magnitude is not representable, and the library's      *)
(* contracts speak of components that can be negated.                      *)
RepMax(rep) == CASE rep \in {"int"} -> 2147483647
                 [] rep \in {"unsigned"} -> "4294967295"
                 [] rep \in {"long", "llong"} -> "9223372036854775807"
                 [] rep \in {"ulong", "ullong"} -> "18446744073709551615"
RepSigned(rep) == rep \in {"int", "long", "llong"}
RepMin(rep) == IF RepSigned(rep) THEN NNeg(RepMax(rep)) ELSE 0
RepLowest(rep) == IF RepSigned(rep) THEN NSub(NNeg(RepMax(rep)), 1) ELSE 0
\* Integers narrower than int occur as operands only.
Fits(x, rep) == NIn(x, RepMin(rep), RepMax(rep))
FracFits(x, rep) == Fits(x[1], rep) /\ Fits(x[2], rep)

Digits(rep) == CASE rep = "int" -> 31 [] rep = "unsigned" -> 32
                 [] rep \in {"long", "llong"} -> 63
                 [] rep \in {"ulong", "ullong"} -> 64

\* The common type of two representations (LP64: long long is the greater of
\* two types of equal width, unsigned absorbs signed of the same rank).
Rank(rep) == CASE rep \in {"short", "ushort", "schar"} -> 0
               [] rep \in {"int", "unsigned"} -> 1
               [] rep \in {"long", "ulong"} -> 2
               [] rep \in {"llong", "ullong"} -> 3
Unsigned(rep) == CASE rep = "int" -> "unsigned" [] rep = "long" -> "ulong"
                   [] rep = "llong" -> "ullong" [] OTHER -> rep
CommonRep(a, b) ==
  LET hi == IF Rank(a) >= Rank(b) THEN a ELSE b
      lo == IF Rank(a) >= Rank(b) THEN b ELSE a
  IN IF a = b THEN a
     ELSE IF Rank(lo) = 0 THEN hi              \* short is promoted to int
     ELSE IF RepSigned(a) = RepSigned(b) THEN hi
     ELSE IF ~RepSigned(hi) THEN hi                 \* unsigned of greater rank
     ELSE IF Rank(hi) = Rank(lo) THEN lo            \* same rank: unsigned wins
     ELSE IF Digits(hi) >= Digits(lo) THEN hi       \* signed can hold unsigned
     ELSE Unsigned(hi)

(* Conversion to a representation keeps the value modulo 2 to the width.   *)
Width(rep) == IF RepSigned(rep) THEN Digits(rep) + 1 ELSE Digits(rep)
Wrap(x, rep) ==
  IF NIn(x, RepLowest(rep), RepMax(rep)) THEN x
  ELSE LET m == NPow(2, Width(rep))
           u == NSub(x, NMul(m, NFloorDiv(x, m)))
       IN IF NLe(u, RepMax(rep)) THEN u ELSE NSub(u, m)
=============================================================================
