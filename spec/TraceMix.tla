------------------------------ MODULE TraceMix ------------------------------
(***************************************************************************)
(* Recorded operations on operands of different representations (C19; and  *)
(* what C01 - C06 say of them) and compound assignments (C20) against      *)
(* Policy.tla.  ev.L and ev.R are the representations of the left and the  *)
(* right operand.                                                          *)
(*   arithmetic  <<n1, d1, n2, d2, status, ub, representation, n, d,       *)
(*                 the same after converting both to the common type,      *)
(*                 operands afterwards>>                                   *)
(*   comparison  <<n1, d1, n2, d2, status, ub, answer, converted's answer, *)
(*                 operands afterwards>>                                   *)
(*   compound    <<n1, d1, n2, d2, status, ub, target, is a reference to   *)
(*                 the target, operation and assignment written out,       *)
(*                 right operand afterwards>>                              *)
(***************************************************************************)
EXTENDS Policy, TraceBase

P(r, k) == <<r[k], r[k + 1]>>
Conv(x, rep) == <<Wrap(x[1], rep), Wrap(x[2], rep)>>
\* an integer operand is a plain value; its 1 is not a component of anything
ConvL(form, x, rep) == IF form = "RF" THEN <<Wrap(x[1], rep), 1>> ELSE Conv(x, rep)
ConvR(form, x, rep) == IF form = "FR" THEN <<Wrap(x[1], rep), 1>> ELSE Conv(x, rep)

\* The calls the property at hand speaks of.
Relevant(op, a, b) ==
  CASE Prop = "C01" -> Defined(a) /\ Defined(b) /\ op # "modulus"
    [] Prop = "C02" -> Defined(a) /\ Defined(b) /\ op = "modulus"
    [] Prop = "C03" -> ~Defined(a) \/ ~Defined(b)
                       \/ (op \in {"divides", "modulus"} /\ NSgn(b[1]) = 0)
    [] OTHER -> TRUE

\* What C01 - C06 say of a result (TraceOps), whatever C19 and C20 say of it.
Shared == Prop \in {"C01", "C02", "C03", "C04", "C05", "C06"}
ValueRight(pol, op, a, b, ub, out) ==
  CASE Prop = "C05" -> PromisedForm(pol, out)
    [] Prop = "C06" -> ub = 0 /\ Same(out, Meaning(op, a, b))
    [] OTHER -> Same(out, Meaning(op, a, b))

JudgeArith(ev, r) ==
  LET com == CommonRep(ev.L, ev.R)
      a == ConvL(ev.form, P(r, 1), com)
      b == ConvR(ev.form, P(r, 3), com)
      pol == PolicyOf(ev.pol)
      x == Apply(pol, ev.op, ev.form, a, b)
  IN IF ~FracFits(a, com) \/ ~FracFits(b, com) \/ ~Headroom(x, com)
        \/ ~Relevant(ev.op, a, b) THEN "skip"
     ELSE IF r[5] # "ok" THEN "bad"
     ELSE IF Shared THEN Verdict(ValueRight(pol, ev.op, a, b, r[6], P(r, 8)))
     ELSE Verdict(/\ r[7] = com
                  /\ Same(P(r, 8), Meaning(ev.op, a, b))
                  /\ Identical(P(r, 8), P(r, 10))
                  /\ Identical(P(r, 12), P(r, 1)) /\ Identical(P(r, 14), P(r, 3)))

JudgeCmp(ev, r) ==
  LET com == CommonRep(ev.L, ev.R)
      a == ConvL(ev.form, P(r, 1), com)
      b == ConvR(ev.form, P(r, 3), com)
      x == ApplyCmp(PolicyOf(ev.pol), ev.op, ev.form, a, b)
  IN IF ~FracFits(a, com) \/ ~FracFits(b, com) \/ ~Headroom(x, com) THEN "skip"
     ELSE IF r[5] # "ok" \/ (Prop = "C06" /\ r[6] # 0) THEN "bad"
     ELSE Verdict(/\ r[7] = CmpMeaning(ev.op, a, b)
                  /\ r[8] = r[7]
                  /\ Identical(P(r, 9), P(r, 1)) /\ Identical(P(r, 11), P(r, 3)))

JudgeCompound(ev, r) ==
  LET alias == ev.form \in {"self", "num", "den"}
      a == P(r, 1)
      form == IF ev.form \in {"num", "den"} THEN "FR"
              ELSE IF ev.form = "self" THEN "FF" ELSE ev.form
      b0 == CASE ev.form = "self" -> a [] ev.form = "num" -> <<a[1], 1>>
              [] ev.form = "den" -> <<a[2], 1>> [] OTHER -> P(r, 3)
      b == ConvR(form, b0, ev.L)
      pol == PolicyOf(ev.pol)
      x == Apply(pol, ev.op, form, a, b)
      o == IF alias THEN 4 ELSE 6                \* results start after here
  IN IF ~FracFits(b, ev.L) \/ ~Headroom(x, ev.L) \/ ~Relevant(ev.op, a, b) THEN "skip"
     ELSE IF r[o - 1] # "ok" THEN "bad"
     ELSE IF Shared THEN Verdict(ValueRight(pol, ev.op, a, b, r[o], P(r, o + 1)))
     ELSE Verdict(/\ Same(P(r, o + 1), Meaning(ev.op, a, b))
                  /\ Identical(P(r, o + 1), P(r, o + 4))
                  /\ r[o + 3]
                  /\ Identical(P(r, o + 6), b0))

\* <<n, d, status, ub, nine ways to convert to R, ..., eight traits>>
JudgeConv(ev, r) ==
  LET x == P(r, 1)
      want == Conv(x, ev.R)
  IN IF ~FracFits(x, ev.R) THEN "skip"
     ELSE IF r[3] # "ok" THEN "bad"
     ELSE Verdict(/\ \A k \in 0..9 : Identical(P(r, 5 + 2 * k), want)
                  /\ \A k \in 25..32 : r[k])

\* <<n, d, status, ub, default twice, n four ways, <n, d> four ways>>
JudgeBasics(ev, r) ==
  IF r[3] # "ok" THEN "bad"
  ELSE Verdict(/\ \A k \in {0, 1} : Identical(P(r, 5 + 2 * k), <<0, 1>>)
               /\ \A k \in {2, 3, 4} : Identical(P(r, 5 + 2 * k), <<r[1], 1>>)
               /\ \A k \in 5..8 : Identical(P(r, 5 + 2 * k), P(r, 1)))

\* <<n, d, status, ub, n', d' three times, is implicit>>: std::ratio<n, d>
\* has the components of its lowest terms
JudgeRatio(ev, r) ==
  IF r[3] # "ok" THEN "bad"
  ELSE Verdict(/\ \A k \in {5, 7, 9} : Identical(P(r, k), Reduce(P(r, 1)))
               /\ r[11])

Judge(ev, r) == CASE ev.fn = "arith" -> JudgeArith(ev, r)
                  [] ev.fn = "cmp" -> JudgeCmp(ev, r)
                  [] ev.fn = "compound" -> JudgeCompound(ev, r)
                  [] ev.fn = "conv" -> JudgeConv(ev, r)
                  [] ev.fn = "basics" -> JudgeBasics(ev, r)
                  [] ev.fn = "ratio" -> JudgeRatio(ev, r)

VARIABLE l
Init == l = 0 /\ InitRegs
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ JudgeRows(l', Judge)
=============================================================================
