----------------------------- MODULE TraceLimits -----------------------------
(***************************************************************************)
(* Recorded limits against Limits (C22).                                   *)
(***************************************************************************)
EXTENDS Limits, TraceBase

P(r, k) == <<r[k], r[k + 1]>>
Lo(ev) == RepLowest(ev.rep)
Hi(ev) == RepMax(ev.rep)

\* <<dummy, status, ub, max, min, smallest, undefined, then of numeric_limits:
\*   min, lowest, max, epsilon, quiet_NaN, round_error, infinity,
\*   signaling_NaN, denorm_min>>: of fraction, each a pair, then of mixed_number,
\* each a whole and a fractional part
JudgeValues(ev, r) ==
  LET g == Greatest(Lo(ev), Hi(ev))
      s == Least(Lo(ev), Hi(ev))
      e == Smallest(Lo(ev), Hi(ev))
      zero == <<0, 1>>
      wanted == <<g, s, e, Undefined, s, s, g, e, Undefined, zero, zero, zero, zero>>
      mixed(k) == IF Defined(P(r, k + 1)) THEN RAdd(<<r[k], 1>>, P(r, k + 1)) ELSE Undefined
  IN IF r[2] # "ok" THEN "bad"
     ELSE Verdict(\A i \in 1..13 : /\ Same(P(r, 2 + 2 * i), wanted[i])
                                   /\ Same(mixed(27 + 3 * i), wanted[i]))

\* <<dummy, status, ub, traits of fraction, traits of mixed number>>
JudgeTraits(ev, r) ==
  LET t == Traits(ev.rep)
  IN IF r[2] # "ok" THEN "bad"
     ELSE Verdict(\A i \in DOMAIN t : r[3 + i] = t[i] /\ r[3 + Len(t) + i] = t[i])

\* <<n, d, limit, status, ub, answer>>: the library's own comparison ev.op of a
\* fraction with a limit (1 greatest, 2 least, 3 smallest)
JudgeWithin(ev, r) ==
  LET x == P(r, 1)
      lim == CASE r[3] = 1 -> Greatest(Lo(ev), Hi(ev)) [] r[3] = 2 -> Least(Lo(ev), Hi(ev))
               [] r[3] = 3 -> Smallest(Lo(ev), Hi(ev))
      m == ApplyCmp(PolicyOf(ev.pol), ev.op, "FF", x, lim)
  IN IF ~Defined(x) \/ ~Headroom(m, ev.rep) THEN "skip"
     ELSE IF r[4] # "ok" THEN "bad"
     ELSE Verdict(/\ r[6] = CmpMeaning(ev.op, x, lim)
                  /\ r[3] = 1 => r[6] = (ev.op = "le")
                  /\ r[3] = 2 => r[6] = (ev.op = "ge")
                  /\ (r[3] = 3 /\ RSgn(x) > 0 /\ ev.op \in {"ge", "lt"}) => r[6] = (ev.op = "ge"))

Judge(ev, r) == CASE ev.fn = "values" -> JudgeValues(ev, r)
                  [] ev.fn = "traits" -> JudgeTraits(ev, r)
                  [] ev.fn = "within" -> JudgeWithin(ev, r)

VARIABLE l
Init == l = 0 /\ InitRegs
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ JudgeRows(l', Judge)
==============================================================================
