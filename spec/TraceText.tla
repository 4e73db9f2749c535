----------------------------- MODULE TraceText ------------------------------
(***************************************************************************)
(* Recorded text output and input against Stream (C14), parsed strings     *)
(* against Literal (C17).                                                  *)
(***************************************************************************)
EXTENDS Literal, TraceBase
S == INSTANCE Stream

P(r, k) == <<r[k], r[k + 1]>>

\* <<n, d, status, ub, text, returned the stream in a good state,
\*   text among others>>
JudgeWrite(ev, r) ==
  LET t == S!Written(P(r, 1))
  IN IF r[3] # "ok" THEN "bad"
     ELSE Verdict(r[5] = t /\ r[6] /\ r[7] = <<60>> \o t \o <<124>> \o t \o <<62>>)

\* <<n, d, status, ub, n', d', failed, returned the stream>>
JudgeBack(ev, r) ==
  IF r[3] # "ok" THEN "bad"
  ELSE Verdict(Identical(P(r, 5), P(r, 1)) /\ ~r[7] /\ r[8])

\* Reads of the text t by the stream, results from position k of the row on,
\* four for each: failed, n, d, position.
RECURSIVE ReadsRight(_, _, _, _, _, _)
ReadsRight(t, reader, rep, r, k, n) ==
  IF n = 0 THEN TRUE
  ELSE LET o == S!Read(t, reader, rep)
       IN \/ o.r.loose
          \/ /\ r[k] = o.r.failed
             /\ ~o.r.failed => Identical(P(r, k + 1), o.x) /\ r[k + 3] = o.r.pos
             /\ ReadsRight(t, o.r, rep, r, k + 4, n - 1)

\* <<chunk, text, status, ub, three reads>>
JudgeRead(ev, r) ==
  IF S!Read(r[2], S!Reader(0), ev.rep).r.loose THEN "skip"
  ELSE IF r[3] # "ok" THEN "bad"
  ELSE Verdict(ReadsRight(r[2], S!Reader(0), ev.rep, r, 5, 3))

\* <<chunk, separator, ev.count fractions, status, ub, text, reads>>
JudgeSeq(ev, r) ==
  LET n == ev.count
      s == 2 * n + 3
      xs == [i \in 1..n |-> P(r, 2 * i + 1)]
      t == S!Join(xs, r[2])
  IN IF r[s] # "ok" THEN "bad"
     ELSE Verdict(/\ r[s + 2] = t
                  /\ ReadsRight(t, S!Reader(0), ev.rep, r, s + 3, n + 1)
                  /\ \A i \in 1..n : ~r[s + 4 * i - 1] /\ Identical(P(r, s + 4 * i), xs[i])
                  /\ r[s + 4 * n + 3])

\* <<text, status, ub, n, d>>
JudgeParse(ev, r) ==
  LET a == Read(r[1])
      out == P(r, 4)
  IN IF ~Accepts(a) THEN Verdict(r[2] = "ok" /\ ~Defined(out))
     ELSE IF ~LitFits(PolicyOf(ev.pol), a, ev.rep) THEN "skip"
     ELSE Verdict(r[2] = "ok" /\ Defined(out) /\ Same(out, LitValue(a)))

Judge(ev, r) == CASE ev.fn = "write" -> JudgeWrite(ev, r)
                  [] ev.fn = "back" -> JudgeBack(ev, r)
                  [] ev.fn = "read" -> JudgeRead(ev, r)
                  [] ev.fn = "seq" -> JudgeSeq(ev, r)
                  [] ev.fn = "parse" -> JudgeParse(ev, r)

VARIABLE l
Init == l = 0 /\ InitRegs
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ JudgeRows(l', Judge)
=============================================================================
