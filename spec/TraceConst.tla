----------------------------- MODULE TraceConst ------------------------------
(***************************************************************************)
(* Calls evaluated by the compiler and by the program (C24):               *)
(*   <<index, arguments..., status, ub, <<what the compiler found>>,       *)
(*     what the program found...>>                                         *)
(* where the compiler found nothing, <<>>, if the call is no constant      *)
(* expression.  What lies within the contract of a call is known to the    *)
(* module ev.of, which judges such calls for the other properties: it      *)
(* calls a call that did not return bad if and only if it was within.      *)
(***************************************************************************)
EXTENDS Num, TraceBase
VARIABLE l
Ops == INSTANCE TraceOps
FormOf == INSTANCE TraceForm
MixedOf == INSTANCE TraceMixed
MixOf == INSTANCE TraceMix
ChronoOf == INSTANCE TraceChrono
TextOf == INSTANCE TraceText

JudgeOf(ev, r) ==
  CASE ev.of = "ops" -> Ops!Judge(ev, r)
    [] ev.of = "form" -> FormOf!Judge(ev, r)
    [] ev.of = "mixed" -> MixedOf!Judge(ev, r)
    [] ev.of = "mix" -> MixOf!Judge(ev, r)
    [] ev.of = "chrono" -> ChronoOf!Judge(ev, r)
    [] ev.of = "text" -> TextOf!Judge(ev, r)

Within(ev, args) == JudgeOf(ev, args \o <<"did not return", 0>>) = "bad"

Judge(ev, r) ==
  LET n == ev.na
      status == r[n + 1]
      const == r[n + 3]
      run == SubSeq(r, n + 4, Len(r))
      same == ToString(const) = ToString(run)
  IN IF status = "throw" THEN "bad"
     ELSE IF status = "ok" /\ Len(const) > 0 THEN Verdict(same)
     ELSE IF Within(ev, SubSeq(r, 2, n)) THEN "bad" ELSE "skip"

Init == l = 0 /\ InitRegs
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ JudgeRows(l', Judge)
==============================================================================
