---------------------------- MODULE TraceCombine -----------------------------
(***************************************************************************)
(* What the compiler said about expressions, conversions and defaults,     *)
(* against Combine (C21).                                                  *)
(***************************************************************************)
EXTENDS Combine, TraceBase

\* <<index, tokens (3 words each)..., status, ub, accepted [, kind, pol, rep]>>
JudgeExpr(ev, r) ==
  LET n == (ev.na - 1) \div 3
      toks == [i \in 1..n |-> <<r[3 * i - 1], r[3 * i], r[3 * i + 1]>>]
      k == ev.na + 1
  IN IF r[k] # "ok" THEN "bad"
     ELSE Verdict(/\ r[k + 2] = Accepted(toks)
                  /\ r[k + 2] => <<r[k + 3], r[k + 4], r[k + 5]>> = TypeOf(toks))

\* <<index, policy, rep, policy, rep, status, ub, constructible, convertible>>
\* Explicit conversion always, implicit conversion between representations only.
JudgeConvert(ev, r) ==
  IF r[6] # "ok" THEN "bad"
  ELSE Verdict(r[8] /\ r[9] = (r[2] = r[4]))

\* <<index, policy, policy, status, ub, mixed + mixed, mixed + fraction,
\*   fraction + mixed, by reference of the same>>
JudgeMixed(ev, r) ==
  IF r[4] # "ok" THEN "bad"
  ELSE Verdict(\A i \in 6..8 : r[i] = (r[2] = r[3]))

\* <<dummy, status, ub, policies by default...>>
JudgeDefaults(ev, r) ==
  IF r[2] # "ok" THEN "bad"
  ELSE Verdict(\A i \in 4..Len(r) : r[i] = Selected(ev.macro))

\* <<n, d, n, d, status, ub, n, d>>: by fractions of the default policy
JudgeArith(ev, r) ==
  LET pol == PolicyOf(Selected(ev.macro))
      a == <<r[1], r[2]>>
      b == <<r[3], r[4]>>
      x == Apply(pol, ev.op, "FF", a, b)
      out == <<r[7], r[8]>>
  IN IF ~Headroom(x, "int") THEN "skip"
     ELSE IF r[5] # "ok" THEN "bad"
     ELSE Verdict(Same(out, Meaning(ev.op, a, b)) /\ PromisedForm(pol, out))

Judge(ev, r) == CASE ev.fn = "expr" -> JudgeExpr(ev, r)
                  [] ev.fn = "convert" -> JudgeConvert(ev, r)
                  [] ev.fn = "mixed" -> JudgeMixed(ev, r)
                  [] ev.fn = "defaults" -> JudgeDefaults(ev, r)
                  [] ev.fn = "arith" -> JudgeArith(ev, r)

VARIABLE l
Init == l = 0 /\ InitRegs
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ JudgeRows(l', Judge)
==============================================================================
