----------------------------- MODULE TraceMixed -----------------------------
(***************************************************************************)
(* Recorded constructions and sums of mixed numbers against Mixed (C12,    *)
(* C03 for undefined parts, C13 for the hashes).  ev.W and ev.F are the    *)
(* representations of whole and fractional part, ev.W2, ev.F2 those of a   *)
(* second operand.  M(r, k) is the mixed number at positions k to k+2.     *)
(***************************************************************************)
EXTENDS Mixed, TraceBase

P(r, k) == <<r[k], r[k + 1]>>
M(r, k) == Mix(r[k], P(r, k + 1))
SameMixed(a, b) == NEq(a.w, b.w) /\ Identical(a.f, b.f)
Value(w, f) == Meaning("plus", <<w, 1>>, f)

\* The calls the property speaks of.
Mine(defined) == (Prop = "C03") # defined

\* What a conversion of the mixed number to other representations needs.
Holds(m, wrep, frep) == Fits(m.w, wrep) /\ FracFits(m.f, frep)

\* What it means that a row of several calls did not return: all of them were
\* within their headroom, or one that was not may have been the cause.
Failed(headroom) == IF headroom THEN "bad" ELSE "skip"

JudgeBuild(ev, r) ==
  LET pol == PolicyOf(ev.pol)
      f == P(r, 2)
      c == Build(pol, r[1], f)
      com == CommonRep(ev.W, ev.F)
      v == Value(r[1], f)
      m == M(r, 6)
      back == ToFrac(pol, m)
  IN IF ~Mine(Defined(f)) \/ ~CFits(c, ev.W, ev.F) THEN "skip"
     ELSE IF r[4] # "ok"
     THEN Failed(Holds(c.m, com, com) /\ Headroom(ToFrac(pol, c.m), com))
     ELSE Verdict(/\ MRight(m, v)
                  /\ MRight(M(r, 9), v)
                  /\ r[12] = com
                  /\ (Holds(m, com, com) /\ Headroom(back, com))
                       => Same(P(r, 13), v) /\ Same(P(r, 15), v)
                          /\ (Prop # "C03" => PromisedForm(pol, P(r, 13))))

\* <<w, status, ub, from the integer twice, default>>
JudgeWhole(ev, r) ==
  IF ~Mine(TRUE) THEN "skip"
  ELSE IF r[2] # "ok" THEN "bad"
  ELSE Verdict(MRight(M(r, 4), <<r[1], 1>>) /\ MRight(M(r, 7), <<r[1], 1>>)
               /\ MRight(M(r, 10), <<0, 1>>))

JudgeSign(ev, r) ==
  LET pol == PolicyOf(ev.pol)
      f == P(r, 2)
      v == Value(r[1], f)
      m == M(r, 6)
      c == Build(pol, r[1], f)
  IN IF ~Mine(Defined(f)) \/ ~CFits(c, ev.W, ev.F) THEN "skip"
     ELSE IF r[4] # "ok" THEN Failed(CFits(NegMixed(pol, c.m), ev.W, ev.F))
     ELSE Verdict(/\ CFits(NegMixed(pol, m), ev.W, ev.F)
                       => /\ MRight(M(r, 11), IF Defined(v) THEN RNeg(v) ELSE v)
                          /\ r[9] = ev.W /\ r[10] = ev.F
                  /\ SameMixed(M(r, 16), m) /\ r[14] = ev.W /\ r[15] = ev.F
                  /\ SameMixed(M(r, 19), m))

JudgeFrom(ev, r) ==
  LET pol == PolicyOf(ev.pol)
      v == P(r, 1)
      x == FromFrac(pol, v)
  IN IF ~Mine(Defined(v)) \/ ~CFits(x.c, ev.W, ev.F)
        \/ ~AllFit(x.om, RepMin(ev.F2), RepMax(ev.F2)) THEN "skip"
     ELSE IF r[3] # "ok" THEN "bad"
     ELSE Verdict(MRight(M(r, 5), v) /\ MRight(M(r, 8), v) /\ MRight(M(r, 11), v)
                  /\ r[14] /\ r[15])

\* A sum of l and q in the representations wrep, frep, seen as wr, fr, out.
SumRight(pol, l, q, wrep, frep, wr, fr, out) ==
  /\ wr = wrep /\ fr = frep
  /\ MRight(out, Meaning("plus", MValue(l), MValue(q)))

JudgeAdd(ev, r) ==
  LET pol == PolicyOf(ev.pol)
      l == M(r, 9)
      q == M(r, 12)
      w == CommonRep(ev.W, ev.W2)
      f == CommonRep(ev.F, ev.F2)
      bl == Build(pol, r[1], P(r, 2))
      bq == Build(pol, r[4], P(r, 5))
      sum(a, b) == Holds(a, w, f) /\ Holds(b, w, f) /\ CFits(AddMixed(pol, a, b), w, f)
                   /\ CFits(AddMixed(pol, b, a), w, f)
  IN IF ~Mine(Defined(P(r, 2)) /\ Defined(P(r, 5)))
        \/ ~CFits(bl, ev.W, ev.F) \/ ~CFits(bq, ev.W2, ev.F2) THEN "skip"
     ELSE IF r[7] # "ok" THEN Failed(sum(bl.m, bq.m))
     ELSE IF ~(MRight(l, Value(r[1], P(r, 2))) /\ MRight(q, Value(r[4], P(r, 5)))) THEN "bad"
     ELSE IF ~sum(l, q) THEN "skip"
     ELSE Verdict(/\ SumRight(pol, l, q, w, f, r[15], r[16], M(r, 17))
                  /\ SumRight(pol, q, l, w, f, r[15], r[16], M(r, 20)))

JudgeAddFrac(ev, r) ==
  LET pol == PolicyOf(ev.pol)
      l == M(r, 8)
      v == P(r, 4)
      w == CommonRep(ev.W, ev.F2)
      f == CommonRep(ev.F, ev.F2)
      q == FromFrac(pol, v)
      bl == Build(pol, r[1], P(r, 2))
      sum(a) == Holds(a, w, f) /\ Holds(q.c.m, w, f) /\ CFits(AddMixed(pol, a, q.c.m), w, f)
  IN IF ~Mine(Defined(P(r, 2)) /\ Defined(v))
        \/ ~CFits(bl, ev.W, ev.F) \/ ~CFits(q.c, ev.F2, ev.F2) \/ ~AllFit(q.om, RepMin(ev.F2), RepMax(ev.F2))
     THEN "skip"
     ELSE IF r[6] # "ok" THEN Failed(sum(bl.m))
     ELSE IF ~sum(l) THEN "skip"
     ELSE Verdict(\A k \in {11, 16} :
            /\ r[k] = w /\ r[k + 1] = f
            /\ MRight(M(r, k + 2), Meaning("plus", MValue(l), v)))

JudgeAddInt(ev, r) ==
  LET pol == PolicyOf(ev.pol)
      l == M(r, 7)
      i == r[4]
      w == CommonRep(ev.W, ev.W2)
      bl == Build(pol, r[1], P(r, 2))
      sum(a) == Fits(a.w, w) /\ Fits(i, w) /\ CFits(AddInt(pol, a, i), w, ev.F)
  IN IF ~Mine(Defined(P(r, 2))) \/ ~CFits(bl, ev.W, ev.F) THEN "skip"
     ELSE IF r[5] # "ok" THEN Failed(sum(bl.m))
     ELSE IF ~sum(l) THEN "skip"
     ELSE Verdict(\A k \in {10, 15} :
            /\ r[k] = w /\ r[k + 1] = ev.F
            /\ MRight(M(r, k + 2), Meaning("plus", MValue(l), <<i, 1>>)))

\* <<parts of ev.count mixed numbers, status, ub, the sum after each>>
RECURSIVE SumsRight(_, _, _, _)
SumsRight(ev, r, i, acc) ==
  IF i > ev.count THEN "ok"
  ELSE LET pol == PolicyOf(ev.pol)
           a == 3 * i - 2
           part == Build(pol, r[a], P(r, a + 1))
           x == AddMixed(pol, acc, part.m)
           got == M(r, 3 * ev.count + 3 * i)
       IN IF ~CFits(part, ev.W, ev.F) \/ ~CFits(x, ev.W, ev.F)
          THEN IF i = 1 THEN "skip" ELSE "ok"
          ELSE IF MRight(got, Meaning("plus", MValue(acc), Value(r[a], P(r, a + 1))))
               THEN SumsRight(ev, r, i + 1, got) ELSE "bad"
RECURSIVE SumsFit(_, _, _, _)
SumsFit(ev, r, i, acc) ==
  IF i > ev.count THEN TRUE
  ELSE LET pol == PolicyOf(ev.pol)
           part == Build(pol, r[3 * i - 2], P(r, 3 * i - 1))
           x == AddMixed(pol, acc, part.m)
       IN CFits(part, ev.W, ev.F) /\ CFits(x, ev.W, ev.F) /\ SumsFit(ev, r, i + 1, x.m)
JudgeSum(ev, r) ==
  IF ~Mine(\A i \in 1..ev.count : Defined(P(r, 3 * i - 1))) THEN "skip"
  ELSE IF r[3 * ev.count + 1] # "ok" THEN Failed(SumsFit(ev, r, 1, Mix(0, <<0, 1>>)))
  ELSE SumsRight(ev, r, 1, Mix(0, <<0, 1>>))

\* <<two mixed numbers, status, ub, each as seen and hashed three times>>
JudgeHash(ev, r) ==
  LET pol == PolicyOf(ev.pol)
      a == Build(pol, r[1], P(r, 2))
      b == Build(pol, r[4], P(r, 5))
  IN IF ~Defined(P(r, 2)) \/ ~Defined(P(r, 5))
        \/ ~CFits(a, ev.W, ev.F) \/ ~CFits(b, ev.W, ev.F) THEN "skip"
     ELSE IF r[7] # "ok" THEN "bad"
     ELSE Verdict(/\ r[13] = r[12] /\ r[14] = r[12]
                  /\ r[19] = r[18] /\ r[20] = r[18]
                  /\ Same(MValue(a.m), MValue(b.m)) => r[12] = r[18])

Judge(ev, r) == CASE ev.fn = "build" -> JudgeBuild(ev, r)
                  [] ev.fn = "whole" -> JudgeWhole(ev, r)
                  [] ev.fn = "sign" -> JudgeSign(ev, r)
                  [] ev.fn = "from" -> JudgeFrom(ev, r)
                  [] ev.fn = "add" -> JudgeAdd(ev, r)
                  [] ev.fn = "addfrac" -> JudgeAddFrac(ev, r)
                  [] ev.fn = "addint" -> JudgeAddInt(ev, r)
                  [] ev.fn = "sum" -> JudgeSum(ev, r)
                  [] ev.fn = "mhash" -> JudgeHash(ev, r)

VARIABLE l
Init == l = 0 /\ InitRegs
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ JudgeRows(l', Judge)
=============================================================================
