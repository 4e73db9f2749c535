----------------------------- MODULE TraceForm ------------------------------
(***************************************************************************)
(* Recorded calls of the functions of one fraction against Form.tla        *)
(* (C03, C07 - C11, C13, C15, C16).  P(r, k) is the pair of components at  *)
(* positions k and k+1 of a row.                                           *)
(***************************************************************************)
EXTENDS Form, TraceBase

P(r, k) == <<r[k], r[k + 1]>>

\* <<n, d, status, ub, reduce, reduce(ignore), normalize_signs, reciprocal,
\*   reduce(normalize), reduce_normalize_signs, reduce_ignore_signs,
\*   reduce twice, ignore twice, normalize twice, reciprocal twice, argument>>
JudgeForms(ev, r) ==
  LET x == P(r, 1)
      wanted == <<Reduce(x), ReduceIgnoreSigns(x), NormalizeSigns(x), <<x[2], x[1]>>,
                  Reduce(x), Reduce(x), ReduceIgnoreSigns(x),
                  Reduce(x), ReduceIgnoreSigns(x), NormalizeSigns(x), x, x>>
      got(i) == P(r, 3 + 2 * i)
  IN IF Prop = "C03"
     THEN IF Defined(x) THEN "skip"
          ELSE IF r[3] # "ok" THEN "bad"
          ELSE Verdict(/\ \A i \in {1, 2, 5, 6, 7, 8, 9} : Identical(got(i), Undefined)
                       /\ \A i \in {3, 10, 11, 12} : ~Defined(got(i)))
     ELSE IF r[3] # "ok" THEN "bad"
     ELSE IF ~Defined(x)                  \* reciprocal is about components
     THEN Verdict(\A i \in {4, 11, 12} : Identical(got(i), wanted[i]))
     ELSE Verdict(\A i \in 1..12 : Identical(got(i), wanted[i]))

\* <<n, d, status, ub, n', d'>>
JudgeAbs(ev, r) ==
  LET x == P(r, 1)
      out == P(r, 5)
  IN IF (Prop = "C03") = Defined(x) THEN "skip"
     ELSE IF r[3] # "ok" THEN "bad"
     ELSE IF ~Defined(x) THEN Verdict(~Defined(out))
     ELSE Verdict(Same(out, RAbs(x)) /\ QNonNegative(out))

\* <<n, d, status, ub, 13 answers, reduce, are_identical, are_different>>
JudgeQueries(ev, r) ==
  LET x == P(r, 1)
      wanted == <<Defined(x), ~Defined(x), QPositive(x), QNegative(x), QZero(x),
                  QNonNegative(x), QNonPositive(x), QInteger(x), QUnit(x),
                  QProper(x), ~QProper(x), QReduced(x), QReducedIgnoreSigns(x)>>
      red == P(r, 18)
  IN IF r[3] # "ok" THEN "bad"
     ELSE Verdict(/\ \A i \in 1..13 : r[4 + i] = wanted[i]
                  /\ Defined(x) => r[16] = Identical(x, red)
                  /\ r[20] = Identical(x, red) /\ r[21] = ~r[20])

\* <<n1, d1, n2, d2, status, ub, are_identical, are_different>>
JudgeIdent(ev, r) ==
  IF r[5] # "ok" THEN "bad"
  ELSE Verdict(/\ r[7] = Identical(P(r, 1), P(r, 3))
               /\ r[8] = ~r[7])

\* <<n, d, status, ub, trunc, ceil, floor, round, to_whole by each of the
\*   modes in that order, to_whole>>
JudgeRound(ev, r) ==
  LET x == P(r, 1)
      t == RTrunc(x)
      c == RCeil(x)
      f == RFloor(x)
      n == RRound(x)
      wanted == <<t, c, f, n, t, c, f, n, n>>
  IN IF ~Defined(x) THEN "skip"
     ELSE IF r[3] # "ok" THEN "bad"
     ELSE Verdict(\A i \in 1..9 : NEq(r[4 + i], wanted[i]))

\* <<n, d, new d, status, ub, by trunc, ceil, floor, round, then by mode,
\*   then by default>>
JudgeRedenom(ev, r) ==
  LET x == P(r, 1)
      d == r[3]
      pol == PolicyOf(ev.pol)
      order == <<"trunc", "ceil", "floor", "round", "trunc", "ceil", "floor",
                 "round", "round">>
  IN IF (Prop = "C03") = Defined(x) THEN "skip"
     ELSE IF ~Defined(x)
     THEN IF r[4] # "ok" THEN "bad"
          ELSE Verdict(\A i \in 1..9 : ~Defined(P(r, 4 + 2 * i)))
     ELSE IF NSgn(d) = 0 \/ ~AllFit(RedenomMid(pol, x, d), RepMin(ev.rep), RepMax(ev.rep))
     THEN "skip"
     ELSE IF r[4] # "ok" THEN "bad"
     ELSE Verdict(\A i \in 1..9 : Identical(P(r, 4 + 2 * i), Redenom(x, d, order[i])))

\* <<base, exponent, status, ub, n, d>>
JudgePow(ev, r) ==
  IF ~PowFits(r[1], r[2], ev.rep) THEN "skip"
  ELSE IF r[3] # "ok" THEN "bad"
  ELSE Verdict(Same(P(r, 5), PowValue(r[1], r[2])))

\* <<exponent, status, ub, pow2, pow(2, exponent)>>
JudgePow2(ev, r) ==
  IF ~PowFits(2, r[1], ev.rep) THEN "skip"
  ELSE IF r[2] # "ok" THEN "bad"
  ELSE Verdict(Same(P(r, 4), PowValue(2, r[1])) /\ Same(P(r, 6), PowValue(2, r[1])))

\* <<n1, d1, n2, d2, status, ub, four hashes of the first, four of the second>>

JudgeHash(ev, r) ==
  LET a == P(r, 1)
      b == P(r, 3)
  IN IF ~Defined(a) \/ ~Defined(b) THEN "skip"
     ELSE IF r[5] # "ok" THEN "bad"
     ELSE Verdict(/\ \A i \in 8..10 : r[i] = r[7]
                  /\ \A i \in 12..14 : r[i] = r[11]
                  /\ Same(a, b) => r[11] = r[7])

\* <<components..., status, ub, hashes...>> of ev.count fractions
JudgeSpread(ev, r) ==
  LET k == ev.count
      values == {ToString(Reduce(P(r, 2 * i - 1))) : i \in 1..k}
      hashes == {r[2 * k + 2 + i] : i \in 1..k}
  IN IF r[2 * k + 1] # "ok" THEN "bad"
     ELSE IF Cardinality(values) < 16 THEN "skip"
     ELSE Verdict(Cardinality(hashes) > 1)

\* <<bits, status, ub, n, d>>
JudgeFrom(ev, r, f) ==
  LET out == P(r, 4)
  IN IF ~FloatFinite(r[1], f)
     THEN Verdict(r[2] = "ok" /\ ~Defined(out))
     ELSE LET v == Reduce(FloatValue(r[1], f))
          IN IF ~FracFits(v, ev.rep) THEN "skip"
             ELSE Verdict(r[2] = "ok" /\ Same(out, v))

\* <<n1, d1, n2, d2, status, ub, float, double, long double of the first,
\*   the same of the second>>, each as kind, mantissa and exponent
JudgeTo(ev, r) ==
  LET a == P(r, 1)
      b == P(r, 3)
      prec == <<24, 53, 64>>
      right(x, i, k) ==
        IF Defined(x) THEN r[k] = "finite" /\ ToFloatOK(r[k + 1], r[k + 2], x, prec[i])
                      ELSE r[k] = "nan"
  IN IF r[5] # "ok" THEN "bad"
     ELSE Verdict(/\ \A i \in 1..3 : right(a, i, 4 + 3 * i) /\ right(b, i, 13 + 3 * i)
                  /\ Same(a, b) => \A i \in {7, 10, 13} :
                       /\ r[i] = r[i + 9]
                       /\ NEq(r[i + 1], r[i + 10]) /\ NEq(r[i + 2], r[i + 11]))

Judge(ev, r) ==
  CASE ev.fn = "forms" -> JudgeForms(ev, r)
    [] ev.fn = "abs" -> JudgeAbs(ev, r)
    [] ev.fn = "queries" -> JudgeQueries(ev, r)
    [] ev.fn = "ident" -> JudgeIdent(ev, r)
    [] ev.fn = "round" -> JudgeRound(ev, r)
    [] ev.fn = "redenom" -> JudgeRedenom(ev, r)
    [] ev.fn = "pow" -> JudgePow(ev, r)
    [] ev.fn = "pow2" -> JudgePow2(ev, r)
    [] ev.fn = "hash" -> JudgeHash(ev, r)
    [] ev.fn = "spread" -> JudgeSpread(ev, r)
    [] ev.fn = "fromfloat" -> JudgeFrom(ev, r, Binary32)
    [] ev.fn = "fromdouble" -> JudgeFrom(ev, r, Binary64)
    [] ev.fn = "tofloat" -> JudgeTo(ev, r)

VARIABLE l
Init == l = 0 /\ InitRegs
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ JudgeRows(l', Judge)
=============================================================================
