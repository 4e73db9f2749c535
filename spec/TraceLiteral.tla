---------------------------- MODULE TraceLiteral -----------------------------
(***************************************************************************)
(* Recorded fraction literals against Denominator and Literal (C18).       *)
(* A shape is given by its index in Shapes.                                *)
(***************************************************************************)
EXTENDS Denominator, TraceBase
L == INSTANCE Literal

P(r, k) == <<r[k], r[k + 1]>>

\* <<shape, literal, status, ub, value, signed, policy>>
JudgeLit(ev, r) ==
  LET s == Shapes[r[1]]
      x == Shaped(s, r[2])
  IN IF ~ShapeFits(s, r[2]) THEN "skip"
     ELSE IF r[3] # "ok" THEN "bad"
     ELSE Verdict(NEq(r[5], x.v) /\ r[6] = x.signed /\ r[7] = "safe_io")

\* <<numerator, shape, literal, status, ub, n, d, rep, policy>>
JudgeOver(ev, r) ==
  LET s == Shapes[r[2]]
      x == Shaped(s, r[3])
  IN IF ~ShapeFits(s, r[3]) \/ ~NIn(x.v, RepLowest(ev.rep), RepMax(ev.rep)) THEN "skip"
     ELSE IF r[4] # "ok" THEN "bad"
     ELSE Verdict(/\ Identical(P(r, 6), Over(r[1], x))
                  /\ r[8] = ev.rep /\ r[9] = "safe_io")

\* <<n, d, shape, literal, status, ub, n', d', rep, policy>>
JudgeQuot(ev, r) ==
  LET s == Shapes[r[3]]
      x == Shaped(s, r[4])
      f == P(r, 1)
      q == Quotient(f, x)
  IN IF ~ShapeFits(s, r[4]) \/ ~Fits(x.v, ev.rep) \/ ~Headroom(q, ev.rep) THEN "skip"
     ELSE IF r[5] # "ok" THEN "bad"
     ELSE Verdict(/\ Same(P(r, 7), Meaning("divides", f, <<x.v, 1>>))
                  /\ PromisedForm(Default, P(r, 7))
                  /\ r[9] = ev.rep /\ r[10] = "safe_io")

\* What a call of the decimal literal may have done: thrown, if the text is no
\* literal, given its value otherwise.
DecRight(a, status, out, rep, policy) ==
  IF L!Accepts(a)
  THEN status = "ok" /\ Defined(out) /\ Same(out, L!LitValue(a))
       /\ rep = "long" /\ policy = "safe_io"
  ELSE status = "throw"
DecLoose(a) == L!Accepts(a) /\ ~L!LitFits(Default, a, "long")

\* <<text, status, ub, n, d, rep, policy>>
JudgeDec(ev, r) ==
  LET a == L!Read(r[1])
  IN IF DecLoose(a) THEN "skip"
     ELSE IF Prop = "C24" THEN Verdict(r[2] = "throw" => ~L!Accepts(a))
     ELSE IF r[2] # "ok" THEN Verdict(DecRight(a, r[2], Undefined, "", ""))
     ELSE Verdict(DecRight(a, r[2], P(r, 4), r[6], r[7]))

(* Spelled in a program: evaluated when it runs and by the compiler.       *)
\* <<index, text, status, ub, constant, n, d of the constant,
\*   n, d, rep, policy of the run>>
JudgeSpelled(ev, r) ==
  LET a == L!Read(r[2])
  IN IF DecLoose(a) THEN "skip"
     ELSE IF Prop = "C24"
     THEN IF r[3] # "ok" \/ ~r[5] THEN Verdict(~L!Accepts(a))
          ELSE Verdict(Identical(P(r, 6), P(r, 8)))
     ELSE IF ~L!Accepts(a) THEN Verdict(r[3] = "throw")
     ELSE IF r[3] # "ok" THEN "bad"
     ELSE Verdict(/\ r[5]
                  /\ DecRight(a, "ok", P(r, 6), r[10], r[11])
                  /\ Identical(P(r, 6), P(r, 8)))
\* <<index, text, status, ub, constant>>
JudgeConst(ev, r) ==
  LET a == L!Read(r[2])
  IN IF DecLoose(a) THEN "skip"
     ELSE IF r[3] # "ok" THEN "bad"
     ELSE IF Prop = "C24" THEN Verdict(L!Accepts(a) => r[5])
     ELSE Verdict(r[5] = L!Accepts(a))

\* <<index, numerator, shape, literal, status, ub, constant, n, d of it,
\*   n, d, rep, policy of the run>>
JudgeWritten(ev, r) ==
  LET s == Shapes[r[3]]
      x == Shaped(s, r[4])
  IN IF r[5] # "ok" THEN "bad"
     ELSE IF Prop = "C24" THEN Verdict(r[7] /\ Identical(P(r, 8), P(r, 10)))
     ELSE Verdict(/\ r[7] /\ Identical(P(r, 8), Over(r[2], x))
                  /\ Identical(P(r, 10), Over(r[2], x))
                  /\ r[12] = ev.rep /\ r[13] = "safe_io")
\* the same of <<n, d>> / literal: <<index, n, d, shape, literal, ...>>
JudgeWrittenQuot(ev, r) ==
  LET x == Shaped(Shapes[r[4]], r[5])
      f == P(r, 2)
      q == Quotient(f, x)
  IN IF ~Headroom(q, ev.rep) THEN "skip"
     ELSE IF r[6] # "ok" THEN "bad"
     ELSE IF Prop = "C24" THEN Verdict(r[8] /\ Identical(P(r, 9), P(r, 11)))
     ELSE Verdict(/\ r[8] /\ Same(P(r, 9), Meaning("divides", f, <<x.v, 1>>))
                  /\ Identical(P(r, 9), P(r, 11)) /\ PromisedForm(Default, P(r, 9))
                  /\ r[13] = ev.rep /\ r[14] = "safe_io")

\* the value of a literal is no matter of C24
Judge(ev, r) == IF Prop = "C24" /\ ev.fn \in {"lit", "over", "quot"}
                THEN Verdict(r[ev.na + 1] # "throw") ELSE
                CASE ev.fn = "lit" -> JudgeLit(ev, r)
                  [] ev.fn = "over" -> JudgeOver(ev, r)
                  [] ev.fn = "quot" -> JudgeQuot(ev, r)
                  [] ev.fn = "dec" -> JudgeDec(ev, r)
                  [] ev.fn = "spelled" -> JudgeSpelled(ev, r)
                  [] ev.fn = "const" -> JudgeConst(ev, r)
                  [] ev.fn = "written" -> JudgeWritten(ev, r)
                  [] ev.fn = "writtenquot" -> JudgeWrittenQuot(ev, r)

VARIABLE l
Init == l = 0 /\ InitRegs
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ JudgeRows(l', Judge)
==============================================================================
