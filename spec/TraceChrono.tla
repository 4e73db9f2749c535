----------------------------- MODULE TraceChrono -----------------------------
(***************************************************************************)
(* Recorded durations, time points and clock readings against Chrono (C23).*)
(* ev.p and ev.q are the periods, ev.pol the policy.                       *)
(***************************************************************************)
EXTENDS Chrono, TraceBase

P(r, k) == <<r[k], r[k + 1]>>
Fitting(x, ev) == AllFit(x.mid, RepMin(ev.rep), RepMax(ev.rep)) /\ FracFits(x.out, ev.rep)
The(ev) == PolicyOf(ev.pol)

\* <<t, status, ub, to_fractional of the duration, of the time point>>
JudgeFrom(ev, r) ==
  IF r[2] # "ok" THEN "bad"
  ELSE Verdict(Same(P(r, 4), <<r[1], 1>>) /\ Same(P(r, 6), <<r[1], 1>>))

\* <<t, status, ub, the duration, the time point, implicit>>
JudgeInto(ev, r) ==
  LET x == Cast(The(ev), <<r[1], 1>>, ev.p, ev.q)
      v == CastMeaning(<<r[1], 1>>, ev.p, ev.q)
  IN IF ~Fitting(x, ev) THEN "skip"
     ELSE IF r[2] # "ok" THEN "bad"
     ELSE Verdict(Same(P(r, 4), v) /\ Same(P(r, 6), v) /\ r[8])

\* <<n, d, status, ub, implicitly, by cast, as time point, implicit>>
JudgeCast(ev, r) ==
  LET x == Cast(The(ev), P(r, 1), ev.p, ev.q)
      v == CastMeaning(P(r, 1), ev.p, ev.q)
  IN IF ~Fitting(x, ev) THEN "skip"
     ELSE IF r[3] # "ok" THEN "bad"
     ELSE Verdict(Same(P(r, 5), v) /\ Same(P(r, 7), v) /\ Same(P(r, 9), v) /\ r[11])

\* <<n, d, n, d, status, ub, n, d, [n, d,] period>> or <<n, d, t, ...>>
JudgeBinary(ev, r, b, k, two) ==
  LET a == P(r, 1)
      x == Binary(The(ev), ev.op, a, ev.p, b, ev.q)
      v == BinaryMeaning(ev.op, a, ev.p, b, ev.q)
      per == IF ev.op = "divides" THEN <<1, 1>> ELSE CommonPeriod(ev.p, ev.q)
      last == k + (IF two THEN 6 ELSE 4)
      right == /\ Same(P(r, k + 2), v) /\ (two => Same(P(r, k + 4), v))
               /\ PromisedForm(The(ev), P(r, k + 2))
               /\ Identical(P(r, last), per)
  IN IF ~Fitting(x, ev) THEN "skip"
     ELSE IF r[k] # "ok" THEN "bad"
     ELSE Verdict(right)

\* <<n, d, n, d, status, ub, of durations, of time points>>
JudgeCompare(ev, r) ==
  LET x == Compare(The(ev), ev.op, P(r, 1), ev.p, P(r, 3), ev.q)
      v == CompareMeaning(ev.op, P(r, 1), ev.p, P(r, 3), ev.q)
      \* <chrono> makes x <= y of y < x, which an undefined count fools
      fooled == ev.op \in {"le", "ge"} /\ (~Defined(P(r, 1)) \/ ~Defined(P(r, 3)))
  IN IF fooled \/ ~AllFit(x.mid, RepMin(ev.rep), RepMax(ev.rep)) THEN "skip"
     ELSE IF r[5] # "ok" THEN "bad"
     ELSE Verdict(r[7] = v /\ r[8] = v)

\* <<n, d, i, status, ub, scaled, again>>
JudgeScale(ev, r) ==
  LET a == P(r, 1)
      i == <<r[3], 1>>
      x == IF ev.op = "neg" THEN ApplyNeg(The(ev), a) ELSE Scaling(The(ev), ev.op, a, r[3])
      y == IF ev.op = "neg" THEN x ELSE Apply(The(ev), ev.op, "FF", a, i)
      v == IF ev.op = "neg" THEN RNeg(a) ELSE Meaning(ev.op, a, i)
      sane == IF Defined(a) THEN TRUE ELSE ev.op # "neg"
  IN IF ~sane \/ ~Fitting(x, ev) \/ ~Fitting(y, ev) THEN "skip"
     ELSE IF r[4] # "ok" THEN "bad"
     ELSE Verdict(Same(P(r, 6), v) /\ Same(P(r, 8), v))

\* <<n, d, n, d, status, ub, +=, -=, the same of time points>>
JudgeCompound(ev, r) ==
  LET a == P(r, 1)
      b == P(r, 3)
      x == Apply(The(ev), "plus", "FF", a, b)
      y == Apply(The(ev), "minus", "FF", a, b)
      s == Meaning("plus", a, b)
      m == Meaning("minus", a, b)
  IN IF ~Fitting(x, ev) \/ ~Fitting(y, ev) THEN "skip"
     ELSE IF r[5] # "ok" THEN "bad"
     ELSE Verdict(/\ Same(P(r, 7), s) /\ Same(P(r, 9), m)
                  /\ Same(P(r, 11), s) /\ Same(P(r, 13), m))

(* A history of readings: the state is the tick of the clock, a reading    *)
(* reports it in the period of the wrapper.                                *)
RECURSIVE Readings(_, _, _, _)
Readings(ev, r, i, n) ==
  IF i > n THEN TRUE
  ELSE LET t == r[i]
           x == Reading(The(ev), t, ev.p, ev.q)
       IN /\ ~Fitting(x, ev) \/ Same(P(r, n + 2 * i + 1), CastMeaning(<<t, 1>>, ev.p, ev.q))
          /\ Readings(ev, r, i + 1, n)
\* <<ticks..., status, ub, readings..., steady, steady of the other, period,
\*   period of the time point>>
JudgeClock(ev, r) ==
  LET n == ev.na
      k == 3 * n + 3
  IN IF \A i \in 1..n : ~Fitting(Reading(The(ev), r[i], ev.p, ev.q), ev) THEN "skip"
     ELSE IF r[n + 1] # "ok" THEN "bad"
     ELSE Verdict(/\ Readings(ev, r, 1, n)
                  /\ r[k] = TRUE /\ r[k + 1] = FALSE
                  /\ Identical(P(r, k + 2), ev.q) /\ Identical(P(r, k + 4), ev.q))
\* <<tick, status, ub, own period, default policy, period>>
JudgeOwn(ev, r) ==
  IF r[2] # "ok" THEN "bad"
  ELSE Verdict(Same(P(r, 4), <<r[1], 1>>) /\ Same(P(r, 6), <<r[1], 1>>)
               /\ Identical(P(r, 8), ev.p))

\* <<dummy, status, ub, before, n, d of the wrapper, after, same steadiness>>
JudgeReal(ev, r) ==
  IF r[2] # "ok" THEN "bad"
  ELSE Verdict(/\ Defined(P(r, 5)) /\ RLe(<<r[4], 1>>, P(r, 5)) /\ RLe(P(r, 5), <<r[7], 1>>)
               /\ RIsInt(P(r, 5)) /\ r[8])
\* <<dummy, status, ub, period, rep, rep of the standard one, policy>>
JudgeAlias(ev, r) ==
  IF r[2] # "ok" THEN "bad"
  ELSE Verdict(Identical(P(r, 4), Unit[ev.unit]) /\ r[6] = r[7] /\ r[8] = "safe_io")

Judge(ev, r) ==
  CASE ev.fn = "from" -> JudgeFrom(ev, r)
    [] ev.fn = "into" -> JudgeInto(ev, r)
    [] ev.fn = "cast" -> JudgeCast(ev, r)
    [] ev.fn = "binary" -> JudgeBinary(ev, r, P(r, 3), 5, FALSE)
    [] ev.fn = "moved" -> JudgeBinary(ev, r, P(r, 3), 5, TRUE)
    [] ev.fn = "mixed" -> JudgeBinary(ev, r, <<r[3], 1>>, 4, FALSE)
    [] ev.fn = "compare" -> JudgeCompare(ev, r)
    [] ev.fn = "scale" -> JudgeScale(ev, r)
    [] ev.fn = "compound" -> JudgeCompound(ev, r)
    [] ev.fn = "clock" -> JudgeClock(ev, r)
    [] ev.fn = "own" -> JudgeOwn(ev, r)
    [] ev.fn = "real" -> JudgeReal(ev, r)
    [] ev.fn = "alias" -> JudgeAlias(ev, r)

VARIABLE l
Init == l = 0 /\ InitRegs
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ JudgeRows(l', Judge)
==============================================================================
