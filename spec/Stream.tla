------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Text output and input of fractions.  A text is a sequence of character  *)
(* codes; a position is the number of characters before it.                *)
(*                                                                         *)
(* A reader is [pos, failed, loose]: how far the stream has been read, and *)
(* whether it is in a failed state.  Read gives the reader after reading   *)
(* one fraction and the fraction.  Texts that are no fraction but that the *)
(* standard's extraction makes something of (characters between numerator  *)
(* and slash, a minus sign for an unsigned representation) are "loose":    *)
(* nothing is promised about them.                                         *)
(***************************************************************************)
EXTENDS Frac

Slash == 47
Space == {32} \cup (9..13)
DecDigit == 48..57

RECURSIVE Digs(_)
Digs(n) == IF NLt(n, 10) THEN <<48 + n>>
           ELSE Append(Digs(NQuot(n, 10)), 48 + NRem(n, 10))
Numeral(n) == IF NSgn(n) < 0 THEN <<45>> \o Digs(NNeg(n)) ELSE Digs(n)
Written(x) == Numeral(x[1]) \o <<Slash>> \o Numeral(x[2])

RECURSIVE Join(_, _)
Join(xs, sep) == IF Len(xs) = 1 THEN Written(xs[1])
                 ELSE Written(xs[1]) \o sep \o Join(Tail(xs), sep)

(***************************** reading *************************************)
Reader(pos) == [pos |-> pos, failed |-> FALSE, loose |-> FALSE]
Fail(r) == [r EXCEPT !.failed = TRUE]
Loose(r) == [r EXCEPT !.loose = TRUE]

At(t, pos) == IF pos < Len(t) THEN t[pos + 1] ELSE -1
RECURSIVE SkipSpace(_, _)
SkipSpace(t, pos) == IF At(t, pos) \in Space THEN SkipSpace(t, pos + 1) ELSE pos
RECURSIVE SkipDigits(_, _)
SkipDigits(t, pos) == IF At(t, pos) \in DecDigit THEN SkipDigits(t, pos + 1) ELSE pos
RECURSIVE Value(_, _, _, _)
Value(t, from, to, acc) == IF from = to THEN acc
                           ELSE Value(t, from + 1, to, NAdd(NMul(acc, 10), At(t, from) - 48))

\* The integer at a position: [pos, kind, v], kind "ok", "none" or "big".
Integer(t, pos0, rep) ==
  LET pos == SkipSpace(t, pos0)
      sign == At(t, pos) \in {43, 45}
      from == IF sign THEN pos + 1 ELSE pos
      to == SkipDigits(t, from)
      v == Value(t, from, to, 0)
      w == IF sign /\ At(t, pos) = 45 THEN NNeg(v) ELSE v
  IN [pos |-> to, v |-> w,
      kind |-> IF from = to THEN "none"
               ELSE IF ~RepSigned(rep) /\ sign /\ At(t, pos) = 45 THEN "minus"
               ELSE IF NIn(w, RepLowest(rep), RepMax(rep)) THEN "ok" ELSE "big"]
HasSlash(t, pos) == \E i \in pos..Len(t) : At(t, i) = Slash

Read(t, r, rep) ==
  LET n == Integer(t, r.pos, rep)
      d == Integer(t, n.pos + 1, rep)
      out(rr, x) == [r |-> rr, x |-> x]
      no == <<0, 0>>
  IN IF r.failed \/ r.loose THEN out(r, no)
     ELSE IF n.kind = "minus" THEN out(Loose(r), no)
     ELSE IF n.kind # "ok" THEN out(Fail(r), no)
     ELSE IF ~HasSlash(t, n.pos) THEN out(Fail(r), no)
     ELSE IF At(t, n.pos) # Slash \/ At(t, n.pos + 1) \in Space THEN out(Loose(r), no)
     ELSE IF d.kind = "minus" THEN out(Loose(r), no)
     ELSE IF d.kind # "ok" THEN out(Fail(r), no)
     ELSE out(Reader(d.pos), <<n.v, d.v>>)

(***************************************************************************)
(* A stream that is written and read in turns: [text, r].  A read that     *)
(* finds nothing but whitespace fails and has consumed it; once the state  *)
(* is cleared reading goes on with what is written next.  Where any other  *)
(* failed read leaves the stream is not promised: after clear it is loose. *)
(***************************************************************************)
Channel == [text |-> <<>>, r |-> Reader(0)]
Drained(c) == SkipSpace(c.text, c.r.pos) = Len(c.text)
Clear(c) == IF ~c.r.failed THEN c
            ELSE IF Drained(c) THEN [c EXCEPT !.r = Reader(Len(c.text))]
            ELSE [c EXCEPT !.r = Loose(Reader(c.r.pos))]
WriteText(c, t) == IF c.r.failed THEN c ELSE [c EXCEPT !.text = @ \o t]
WriteFrac(c, x) == WriteText(c, Written(x))
WriteInt(c, n) == WriteText(c, Numeral(n))
ReadFrac(c, rep) == LET o == Read(c.text, c.r, rep) IN [c |-> [c EXCEPT !.r = o.r], x |-> o.x]
ReadInt(c, rep) ==
  LET n == Integer(c.text, c.r.pos, rep)
      out(r, v) == [c |-> [c EXCEPT !.r = r], v |-> v]
  IN IF c.r.failed \/ c.r.loose THEN out(c.r, 0)
     ELSE IF n.kind = "minus" THEN out(Loose(c.r), 0)
     ELSE IF n.kind # "ok" THEN out(Fail(c.r), 0)
     ELSE out(Reader(n.pos), n.v)
=============================================================================
