------------------------------- MODULE Policy -------------------------------
(***************************************************************************)
(* The operation policies, with the shape of include/ieme/ops.hpp: how     *)
(* each computes a result from integers, so that both the result and every *)
(* intermediate integer that must be representable are explicit.           *)
(*                                                                         *)
(* An operation is [out |-> result, mid |-> sequence of the integers       *)
(* computed on the way].  A policy is [base, rin, rout]: base "safe" (via  *)
(* least common denominators) or "fast" (via cross products), reduction    *)
(* mode of the inputs and of the output ("no", "ignore", "norm").          *)
(*                                                                         *)
(* Operands are pairs; in the forms "FR" (fraction op integer) and "RF"    *)
(* the integer i is given as <<i, 1>>.                                     *)
(***************************************************************************)
EXTENDS Frac

ArithOps == {"plus", "minus", "times", "divides", "modulus"}
CmpOps == {"eq", "ne", "lt", "le", "gt", "ge"}
Forms == {"FF", "FR", "RF"}

Pol(base, rin, rout) == [base |-> base, rin |-> rin, rout |-> rout]

PolicyOf(name) ==
  CASE name = "safe" -> Pol("safe", "no", "no")
    [] name = "safe_i" -> Pol("safe", "ignore", "no")
    [] name = "safe_o" -> Pol("safe", "no", "norm")
    [] name = "safe_io" -> Pol("safe", "ignore", "norm")
    [] name = "fast" -> Pol("fast", "no", "no")
    [] name = "fast_i" -> Pol("fast", "ignore", "no")
    [] name = "fast_o" -> Pol("fast", "no", "norm")
    [] name = "fast_io" -> Pol("fast", "ignore", "norm")
    \* modes and nestings the library offers without naming them
    [] name = "safe_in" -> Pol("safe", "norm", "no")
    [] name = "fast_in" -> Pol("fast", "norm", "no")
    [] name = "safe_on" -> Pol("safe", "no", "ignore")
    [] name = "fast_on" -> Pol("fast", "no", "ignore")
    [] name = "safe_oi" -> Pol("safe", "ignore", "norm")   \* output around input
PolicyNames == {"safe", "safe_i", "safe_o", "safe_io", "fast", "fast_i",
                "fast_o", "fast_io", "safe_in", "fast_in", "safe_on",
                "fast_on", "safe_oi"}

(************************** what an operation means ************************)
Meaning(op, a, b) ==
  IF ~Defined(a) \/ ~Defined(b) THEN Undefined
  ELSE CASE op = "plus" -> RAdd(a, b)
         [] op = "minus" -> RSub(a, b)
         [] op = "times" -> RMul(a, b)
         [] op = "divides" -> IF RSgn(b) = 0 THEN Undefined ELSE RDiv(a, b)
         [] op = "modulus" -> IF RSgn(b) = 0 THEN Undefined ELSE RMod(a, b)

CmpMeaning(op, a, b) ==
  IF ~Defined(a) \/ ~Defined(b) THEN op = "ne"
  ELSE LET s == RSgn(RSub(a, b))
       IN CASE op = "eq" -> s = 0 [] op = "ne" -> s # 0
            [] op = "lt" -> s < 0 [] op = "le" -> s <= 0
            [] op = "gt" -> s > 0 [] op = "ge" -> s >= 0

(************************** how the bases compute **************************)
Res(out, mid) == [out |-> out, mid |-> mid]

\* a * k / b for the multiple k of b
Scale(k, x) == NMul(NQuot(k, x[2]), x[1])
Lcm(a, b) == NQuot(NMul(NAbs(a), NAbs(b)), NGcd(a, b))

Cross(a, b) == <<NMul(a[1], b[2]), NMul(b[1], a[2])>>

SafeFF(op, a, b) ==
  IF op \in {"plus", "minus", "modulus"}
  THEN IF ~Defined(a) \/ ~Defined(b) \/ (op = "modulus" /\ NSgn(b[1]) = 0)
       THEN Res(Undefined, <<>>)
       ELSE LET k == Lcm(a[2], b[2])
                x == Scale(k, a)
                y == Scale(k, b)
                n == CASE op = "plus" -> NAdd(x, y)
                       [] op = "minus" -> NSub(x, y)
                       [] op = "modulus" -> NRem(x, y)
            IN Res(<<n, k>>, <<NAbs(a[2]), NAbs(b[2]), k, x, y, n>>)
  ELSE IF op = "times"
  THEN LET n == NMul(a[1], b[1])
           d == NMul(a[2], b[2])
       IN Res(<<n, d>>, <<n, d>>)
  ELSE IF ~Defined(b) THEN Res(Undefined, <<>>)
  ELSE LET n == NMul(a[1], b[2])
           d == NMul(a[2], b[1])
       IN Res(<<n, d>>, <<n, d>>)

FastFF(op, a, b) ==
  IF op \in {"plus", "minus"}
  THEN LET x == NMul(a[1], b[2])
           y == NMul(b[1], a[2])
           n == IF op = "plus" THEN NAdd(x, y) ELSE NSub(x, y)
           d == NMul(a[2], b[2])
       IN Res(<<n, d>>, <<x, y, n, d>>)
  ELSE IF op = "modulus"
  THEN IF ~Defined(a) \/ ~Defined(b) \/ NSgn(b[1]) = 0
       THEN Res(Undefined, <<>>)
       ELSE LET x == NMul(a[1], b[2])
                y == NMul(b[1], a[2])
                d == NMul(a[2], b[2])
            IN Res(<<NRem(x, y), d>>, <<x, y, d>>)
  ELSE SafeFF(op, a, b)

\* With an integer on one side both bases compute alike.
BaseFR(op, a, i) ==
  CASE op \in {"plus", "minus"} ->
         LET x == NMul(i, a[2])
             n == IF op = "plus" THEN NAdd(a[1], x) ELSE NSub(a[1], x)
         IN Res(<<n, a[2]>>, <<x, n>>)
    [] op = "times" -> LET n == NMul(a[1], i) IN Res(<<n, a[2]>>, <<n>>)
    [] op = "divides" -> LET d == NMul(a[2], i) IN Res(<<a[1], d>>, <<d>>)
    [] op = "modulus" ->
         IF ~Defined(a) \/ NSgn(i) = 0 THEN Res(Undefined, <<>>)
         ELSE LET x == NMul(a[2], i) IN Res(<<NRem(a[1], x), a[2]>>, <<x>>)

BaseRF(op, i, b) ==
  CASE op \in {"plus", "times"} -> BaseFR(op, b, i)
    [] op = "minus" -> LET x == NMul(i, b[2])
                           n == NSub(x, b[1])
                       IN Res(<<n, b[2]>>, <<x, n>>)
    [] op = "divides" -> IF ~Defined(b) THEN Res(Undefined, <<>>)
                         ELSE LET n == NMul(i, b[2])
                              IN Res(<<n, b[1]>>, <<n>>)
    [] op = "modulus" ->
         IF ~Defined(b) \/ NSgn(b[1]) = 0 THEN Res(Undefined, <<>>)
         ELSE LET x == NMul(i, b[2]) IN Res(<<NRem(x, b[1]), b[2]>>, <<x>>)

(************************** reduction around them **************************)
\* What reducing needs: absolute values for the gcd, negation of both lowest
\* components for the normalization.
ReduceMid(x, mode) ==
  IF mode = "no" \/ ~Defined(x) THEN <<>>
  ELSE LET y == ReduceIgnoreSigns(x)
       IN <<NAbs(x[1]), NAbs(x[2])>>
          \o (IF mode = "norm" /\ NSgn(x[2]) < 0
              THEN <<NNeg(y[1]), NNeg(y[2])>> ELSE <<>>)

Apply(pol, op, form, a, b) ==
  LET ra == IF form = "RF" THEN a ELSE ReduceMode(a, pol.rin)
      rb == IF form = "FR" THEN b ELSE ReduceMode(b, pol.rin)
      ma == IF form = "RF" THEN <<>> ELSE ReduceMid(a, pol.rin)
      mb == IF form = "FR" THEN <<>> ELSE ReduceMid(b, pol.rin)
      core == CASE form = "FF" -> IF pol.base = "safe" THEN SafeFF(op, ra, rb)
                                                      ELSE FastFF(op, ra, rb)
                [] form = "FR" -> BaseFR(op, ra, rb[1])
                [] form = "RF" -> BaseRF(op, ra[1], rb)
  IN Res(ReduceMode(core.out, pol.rout),
         ma \o mb \o core.mid \o ReduceMid(core.out, pol.rout))

ApplyNeg(pol, a) ==
  LET ra == IF pol.rin = "no" THEN a ELSE Reduce(a)
      ma == IF pol.rin = "no" THEN <<>> ELSE ReduceMid(a, "norm")
      out == <<NNeg(ra[1]), ra[2]>>
  IN Res(ReduceMode(out, pol.rout),
         ma \o <<out[1]>> \o ReduceMid(out, pol.rout))

(* Comparisons.  x < y is evaluated as written, x > y as y < x.            *)
FlipIf(flip, x, y, strict) ==
  IF flip THEN (IF strict THEN NLt(y, x) ELSE NLe(y, x))
          ELSE (IF strict THEN NLt(x, y) ELSE NLe(x, y))

BaseCmp(base, op, form, a, b) ==          \* op \in {"eq", "lt", "le"}
  IF ~Defined(a) \/ ~Defined(b)
  THEN Res(FALSE, IF base = "fast" /\ form = "FF" THEN Cross(a, b)
                  ELSE IF form = "FF" THEN <<>>
                  ELSE <<NMul(a[1], b[2]), NMul(b[1], a[2])>>)
  ELSE LET k == Lcm(a[2], b[2])
           viaLcm == base = "safe" /\ form = "FF"
           x == IF viaLcm THEN Scale(k, a) ELSE NMul(a[1], b[2])
           y == IF viaLcm THEN Scale(k, b) ELSE NMul(b[1], a[2])
           flip == ~viaLcm /\ NSgn(a[2]) * NSgn(b[2]) < 0
       IN Res(IF op = "eq" THEN NEq(x, y) ELSE FlipIf(flip, x, y, op = "lt"),
              <<x, y>> \o (IF viaLcm THEN <<NAbs(a[2]), NAbs(b[2]), k>>
                                     ELSE <<>>))

Swap(form) == CASE form = "FF" -> "FF" [] form = "FR" -> "RF"
                [] form = "RF" -> "FR"

ApplyCmp(pol, op, form, a, b) ==
  LET ra == IF form = "RF" THEN a ELSE ReduceMode(a, pol.rin)
      rb == IF form = "FR" THEN b ELSE ReduceMode(b, pol.rin)
      ma == IF form = "RF" THEN <<>> ELSE ReduceMid(a, pol.rin)
      mb == IF form = "FR" THEN <<>> ELSE ReduceMid(b, pol.rin)
      r == CASE op \in {"eq", "lt", "le"} -> BaseCmp(pol.base, op, form, ra, rb)
             [] op = "ne" -> BaseCmp(pol.base, "eq", form, ra, rb)
             [] op = "gt" -> BaseCmp(pol.base, "lt", Swap(form), rb, ra)
             [] op = "ge" -> BaseCmp(pol.base, "le", Swap(form), rb, ra)
  IN Res(IF op = "ne" THEN ~r.out ELSE r.out, ma \o mb \o r.mid)

(************************** headroom ***************************************)
AllFit(mid, lo, hi) == \A k \in DOMAIN mid : NIn(mid[k], lo, hi)
Headroom(res, rep) == AllFit(res.mid, RepMin(rep), RepMax(rep))

\* The form a policy promises for its results.
PromisedForm(pol, x) ==
  CASE pol.rout = "norm" -> IF Defined(x) THEN Canonical(x)
                            ELSE Identical(x, Undefined)
    [] pol.rout = "ignore" -> IF Defined(x) THEN LowestTerms(x)
                              ELSE Identical(x, Undefined)
    [] OTHER -> TRUE
=============================================================================
