------------------------------ MODULE TraceOps ------------------------------
(***************************************************************************)
(* Recorded operator calls against Policy.tla (C01 - C06).                 *)
(*   arithmetic  <<n1, d1, n2, d2, status, ub, n, d>>                      *)
(*   comparison  <<n1, d1, n2, d2, status, ub, answer>>                    *)
(*   neg, pos    <<n1, d1, status, ub, n, d>>                              *)
(***************************************************************************)
EXTENDS Policy, TraceBase

\* The calls the property at hand speaks of.
Relevant(ev, a, b) ==
  CASE Prop = "C01" -> Defined(a) /\ Defined(b) /\ ev.op # "modulus"
    [] Prop = "C02" -> Defined(a) /\ Defined(b) /\ ev.op = "modulus"
    [] Prop = "C03" -> ~Defined(a) \/ ~Defined(b)
                       \/ (ev.op \in {"divides", "modulus"} /\ NSgn(b[1]) = 0)
    [] OTHER -> TRUE

JudgeArith(ev, r) ==
  LET pol == PolicyOf(ev.pol)
      a == <<r[1], r[2]>>
      b == <<r[3], r[4]>>
      x == Apply(pol, ev.op, ev.form, a, b)
      out == <<r[7], r[8]>>
  IN IF ~Relevant(ev, a, b) \/ ~Headroom(x, ev.rep) THEN "skip"
     ELSE IF r[5] # "ok" THEN "bad"
     ELSE CASE Prop = "C05" -> Verdict(PromisedForm(pol, out))
            [] Prop = "C06" -> Verdict(r[6] = 0 /\ Same(out, Meaning(ev.op, a, b)))
            [] OTHER -> Verdict(Same(out, Meaning(ev.op, a, b)))

JudgeCmp(ev, r) ==
  LET pol == PolicyOf(ev.pol)
      a == <<r[1], r[2]>>
      b == <<r[3], r[4]>>
      x == ApplyCmp(pol, ev.op, ev.form, a, b)
  IN IF ~Headroom(x, ev.rep) THEN "skip"
     ELSE IF r[5] # "ok" THEN "bad"
     ELSE IF Prop = "C06" /\ r[6] # 0 THEN "bad"
     ELSE Verdict(r[7] = CmpMeaning(ev.op, a, b))

JudgeNeg(ev, r) ==
  LET pol == PolicyOf(ev.pol)
      a == <<r[1], r[2]>>
      x == ApplyNeg(pol, a)
      out == <<r[5], r[6]>>
      want == IF ~Defined(a) THEN Undefined
              ELSE IF ev.op = "neg" THEN RNeg(a) ELSE a
  IN IF ~Relevant(ev, a, a) \/ (ev.op = "neg" /\ ~Headroom(x, ev.rep)) THEN "skip"
     ELSE IF r[3] # "ok" THEN "bad"
     ELSE CASE Prop = "C05" -> Verdict(ev.op = "pos" \/ PromisedForm(pol, out))
            [] Prop = "C06" -> Verdict(r[4] = 0 /\ Same(out, want))
            [] OTHER -> Verdict(Same(out, want))

Judge(ev, r) == CASE ev.fn = "arith" -> JudgeArith(ev, r)
                  [] ev.fn = "cmp" -> JudgeCmp(ev, r)
                  [] ev.fn = "sign" -> JudgeNeg(ev, r)

VARIABLE l
Init == l = 0 /\ InitRegs
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ JudgeRows(l', Judge)
=============================================================================
