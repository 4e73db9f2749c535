-------------------------------- MODULE Form --------------------------------
(***************************************************************************)
(* Functions of one fraction: rounding, redenomination, powers, and the    *)
(* floating-point numbers fractions are converted from and to.             *)
(* Each is specified by what it denotes; for those the library computes    *)
(* with a case analysis of its own (Alg...), the specification also has    *)
(* that algorithm with its intermediate integers, and MC_Form checks that  *)
(* it denotes the same and stays within the machine word.                  *)
(***************************************************************************)
EXTENDS Policy

Modes == {"trunc", "ceil", "floor", "round"}

Round(x, mode) == CASE mode = "trunc" -> RTrunc(x) [] mode = "ceil" -> RCeil(x)
                    [] mode = "floor" -> RFloor(x) [] mode = "round" -> RRound(x)

AlgTrunc(x) == Res(NQuot(x[1], x[2]), <<>>)
AlgCeil(x) == LET t == NQuot(x[1], x[2])
              IN IF RIsInt(x) \/ QNegative(x) THEN Res(t, <<>>)
                 ELSE Res(NAdd(t, 1), <<NAdd(t, 1)>>)
AlgFloor(x) == LET t == NQuot(x[1], x[2])
               IN IF RIsInt(x) \/ QPositive(x) THEN Res(t, <<>>)
                  ELSE Res(NSub(t, 1), <<NSub(t, 1)>>)
\* Twice the remainder may not be representable: it is compared with what it
\* lacks to the denominator.
AlgRound(x) ==
  LET f == AlgFloor(x)
      d == NAbs(x[2])
      r == NAbs(NRem(x[1], x[2]))
      c == NSub(d, r)
      down == IF QNegative(x) THEN RIsInt(x) \/ NLt(c, r) ELSE NLt(r, c)
      out == IF down THEN f.out ELSE NAdd(f.out, 1)
  IN Res(out, f.mid \o <<d, r, c, out>>)

(***************************** redenomination ******************************)
\* The numerator over d # 0.
RedenomNum(v, d, mode) ==
  LET x == RMul(v, RInt(d))
  IN CASE mode = "trunc" -> RTrunc(x)
       [] mode = "ceil" -> IF NSgn(d) > 0 THEN RCeil(x) ELSE RFloor(x)
       [] mode = "floor" -> IF NSgn(d) > 0 THEN RFloor(x) ELSE RCeil(x)
       [] mode = "round" -> RRound(x)
Redenom(v, d, mode) == IF Defined(v) THEN <<RedenomNum(v, d, mode), d>>
                                     ELSE Undefined

\* The product of the value and the new denominator is computed by the policy.
RedenomMid(pol, v, d) ==
  Apply(pol, "times", "FR", v, <<d, 1>>).mid
  \o (IF NSgn(d) < 0
      THEN <<NNeg(d)>> \o Apply(pol, "times", "FR", v, <<NNeg(d), 1>>).mid
      ELSE <<>>)

(***************************** powers **************************************)
Pow(b, e) == IF e >= 0 THEN <<NPow(b, e), 1>> ELSE <<1, NPow(b, -e)>>

RECURSIVE AlgPow(_, _)           \* e >= 0, by squaring
AlgPow(b, e) ==
  IF e = 0 THEN Res(1, <<>>)
  ELSE IF e % 2 = 1
  THEN LET r == AlgPow(b, e - 1)
           x == NMul(b, r.out) IN Res(x, r.mid \o <<x>>)
  ELSE LET r == AlgPow(b, e \div 2)
           x == NMul(r.out, r.out) IN Res(x, r.mid \o <<x>>)

(* Whether base^|e| is representable, without computing gigantic powers.   *)
PowFits(b, e, rep) ==
  LET k == IF e < 0 THEN -e ELSE e
  IN IF NLe(NAbs(b), 1) THEN TRUE
     ELSE IF k > 64 THEN FALSE
     ELSE Fits(NPow(b, k), rep)
PowValue(b, e) ==             \* for PowFits
  LET k == IF e < 0 THEN -e ELSE e
      p == IF NLe(NAbs(b), 1)
           THEN IF k = 0 THEN 1 ELSE IF k % 2 = 0 THEN NMul(b, b) ELSE b
           ELSE NPow(b, k)
  IN IF e >= 0 THEN <<p, 1>> ELSE <<1, p>>

(***************************** floating-point ******************************)
\* An IEEE binary interchange format: p bits of precision, w exponent bits.
Format(p, w) == [p |-> p, w |-> w]
Binary32 == Format(24, 8)
Binary64 == Format(53, 11)

Pow2(k) == NPow(2, k)
\* m * 2^e as a pair
Scaled(m, e) == IF e >= 0 THEN <<NMul(m, Pow2(e)), 1>> ELSE <<m, Pow2(-e)>>

DecodeFields(bits, f) ==
  LET m == f.p - 1
      man == NRem(bits, Pow2(m))
      rest == NQuot(bits, Pow2(m))
  IN [sign |-> NQuot(rest, Pow2(f.w)), exp |-> NRem(rest, Pow2(f.w)), man |-> man]

FloatFinite(bits, f) == DecodeFields(bits, f).exp # Pow2(f.w) - 1
FloatValue(bits, f) ==
  LET x == DecodeFields(bits, f)
      bias == Pow2(f.w - 1) - 1
      m == IF x.exp = 0 THEN x.man ELSE NAdd(Pow2(f.p - 1), x.man)
      e == (IF x.exp = 0 THEN 1 ELSE x.exp) - bias - (f.p - 1)
      s == IF x.sign = 1 THEN NNeg(m) ELSE m
  IN Scaled(s, e)

\* Exactly representable integers in p bits (ignoring the exponent range,
\* which no component of 64 bits leaves).
RECURSIVE OddPart(_)
OddPart(n) == IF NSgn(n) = 0 THEN 0
              ELSE IF NSgn(NRem(n, 2)) = 0 THEN OddPart(NQuot(n, 2)) ELSE n
ExactIn(n, p) == NLt(NAbs(OddPart(n)), Pow2(p))

(* m * 2^e, with m = 0 or 2^(p-1) <= |m| < 2^p, is a number of precision p *)
(* nearest to the value v.                                                 *)
IsNearest(m, e, v, p) ==
  IF RSgn(v) = 0 THEN NSgn(m) = 0
  ELSE /\ NSgn(m) = RSgn(v)
       /\ LET x == Scaled(NAbs(m), e)
              a == RAbs(v)
              up == Scaled(1, e - 1)               \* half the gap above x
              down == IF NEq(NAbs(m), Pow2(p - 1)) THEN Scaled(1, e - 2) ELSE up
          IN IF RLe(x, a) THEN RLe(RSub(a, x), up) ELSE RLe(RSub(x, a), down)

\* Within k units of relative rounding error 2^-p.
IsClose(m, e, v, p, k) ==
  LET x == Scaled(m, e)
  IN RLe(RMul(RAbs(RSub(x, v)), <<Pow2(p), 1>>), RMul(<<k, 1>>, RAbs(v)))

\* What a conversion to precision p may return for a defined fraction.
ToFloatOK(m, e, x, p) ==
  LET r == Reduce(x)
  IN IF ExactIn(r[1], p) /\ ExactIn(r[2], p) THEN IsNearest(m, e, r, p)
     ELSE IsClose(m, e, r, p, 4) /\ NSgn(m) = RSgn(x)
=============================================================================
