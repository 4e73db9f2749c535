------------------------------ MODULE Literal -------------------------------
(***************************************************************************)
(* Floating literals of C++ without sign and suffix, as sequences of       *)
(* character codes: the grammar, twice.  IsLiteral says it as the language *)
(* standard does, by the ways of splitting the text.  The automaton (Start,*)
(* Step, Accepts) reads it character by character and gathers the parts of *)
(* the value.  MC_Literal checks that both accept the same texts and       *)
(* denote the same value.                                                  *)
(***************************************************************************)
EXTENDS Form

Quote == 39  Plus == 43  Minus == 45  Dot == 46
Zero == 48
Dec == 48..57
Hex == Dec \cup (65..70) \cup (97..102)
ExpDec == {69, 101}                      \* E e
ExpHex == {80, 112}                      \* P p
X == {88, 120}

DigitValue(ch) == IF ch <= 57 THEN ch - 48 ELSE IF ch <= 70 THEN ch - 55 ELSE ch - 87

(***************************** the standard's words ************************)
DigitSeq(s, D) ==
  /\ Len(s) > 0 /\ s[1] \in D /\ s[Len(s)] \in D
  /\ \A i \in DOMAIN s : s[i] \in D \cup {Quote}
  /\ \A i \in 1..Len(s) - 1 : ~(s[i] = Quote /\ s[i + 1] = Quote)
From(s, i) == SubSeq(s, i, Len(s))
UpTo(s, i) == SubSeq(s, 1, i)
Fractional(s, D) ==                      \* [digits] . digits  or  digits .
  \E j \in DOMAIN s :
    /\ s[j] = Dot
    /\ j = 1 \/ DigitSeq(UpTo(s, j - 1), D)
    /\ j = Len(s) \/ DigitSeq(From(s, j + 1), D)
    /\ Len(s) > 1
Signed(s) == IF Len(s) > 0 /\ s[1] \in {Plus, Minus} THEN From(s, 2) ELSE s
Exponent(s, letters) == Len(s) > 0 /\ s[1] \in letters /\ DigitSeq(Signed(From(s, 2)), Dec)

IsDecimal(s) ==
  \E i \in 0..Len(s) :
    LET m == UpTo(s, i)
        e == From(s, i + 1)
    IN \/ Fractional(m, Dec) /\ (e = <<>> \/ Exponent(e, ExpDec))
       \/ DigitSeq(m, Dec) /\ Exponent(e, ExpDec)
IsHexadecimal(s) ==
  /\ Len(s) > 2 /\ s[1] = Zero /\ s[2] \in X
  /\ \E i \in 2..Len(s) :
       LET m == SubSeq(s, 3, i)
           e == From(s, i + 1)
       IN (Fractional(m, Hex) \/ DigitSeq(m, Hex)) /\ Exponent(e, ExpHex)
IsLiteral(s) == IsDecimal(s) \/ IsHexadecimal(s)

\* The value by the same words: digits, dot, exponent picked out by position.
RECURSIVE DigitsOf(_, _, _)
DigitsOf(s, base, acc) ==
  IF s = <<>> THEN acc
  ELSE DigitsOf(Tail(s), base, IF s[1] = Quote THEN acc
                               ELSE NAdd(NMul(acc, base), DigitValue(s[1])))
CountDigits(s) == Cardinality({i \in DOMAIN s : s[i] # Quote})
FirstOf(s, set) == IF \E i \in DOMAIN s : s[i] \in set
                   THEN CHOOSE i \in DOMAIN s : s[i] \in set /\ \A j \in 1..i - 1 : s[j] \notin set
                   ELSE Len(s) + 1
PartsOf(t) ==
  LET hex == IsHexadecimal(t)
      s == IF hex THEN From(t, 3) ELSE t
      base == IF hex THEN 16 ELSE 10
      i == FirstOf(s, IF hex THEN ExpHex ELSE ExpDec)
      m == UpTo(s, i - 1)
      e == From(s, i + 1)
      j == FirstOf(m, {Dot})
      frac == From(m, j + 1)
  IN [hex |-> hex,
      whole |-> DigitsOf(UpTo(m, j - 1), base, 0),
      frac |-> DigitsOf(frac, base, 0), prec |-> CountDigits(frac),
      neg |-> Len(e) > 0 /\ e[1] = Minus, exp |-> DigitsOf(Signed(e), 10, 0)]

(***************************** the automaton *******************************)
Start == [q |-> "start", hex |-> FALSE, whole |-> 0, frac |-> 0, prec |-> 0,
          neg |-> FALSE, exp |-> 0]
Dead(a) == a.q = "dead"
To(a, q) == [a EXCEPT !.q = q]
Base(a) == IF a.hex THEN 16 ELSE 10
Push(x, a, ch) == NAdd(NMul(x, Base(a)), DigitValue(ch))
Whole(a, q, ch) == [a EXCEPT !.q = q, !.whole = Push(a.whole, a, ch)]
Frac(a, q, ch) == [a EXCEPT !.q = q, !.frac = Push(a.frac, a, ch), !.prec = @ + 1]
Expo(a, ch) == [a EXCEPT !.q = "expdig", !.exp = NAdd(NMul(@, 10), DigitValue(ch))]

Step(a, ch) ==
  LET D == IF a.hex THEN Hex ELSE Dec
      E == IF a.hex THEN ExpHex ELSE ExpDec
      q == a.q
  IN IF q = "start" /\ ch = Zero THEN Whole(a, "zero", ch)
     ELSE IF q = "zero" /\ ch \in X THEN [a EXCEPT !.q = "hexstart", !.hex = TRUE]
     ELSE IF q \in {"start", "zero", "whole", "wholesep", "hexstart"} /\ ch \in D
     THEN Whole(a, "whole", ch)
     ELSE IF q \in {"zero", "whole"} /\ ch = Quote THEN To(a, "wholesep")
     ELSE IF q \in {"start", "hexstart"} /\ ch = Dot THEN To(a, "bare")
     ELSE IF q \in {"zero", "whole"} /\ ch = Dot THEN To(a, "dot")
     ELSE IF q \in {"zero", "whole", "dot", "frac"} /\ ch \in E THEN To(a, "exp")
     ELSE IF q \in {"bare", "dot", "frac", "fracsep"} /\ ch \in D THEN Frac(a, "frac", ch)
     ELSE IF q = "frac" /\ ch = Quote THEN To(a, "fracsep")
     ELSE IF q = "exp" /\ ch \in {Plus, Minus} THEN [a EXCEPT !.q = "expsign", !.neg = (ch = Minus)]
     ELSE IF q \in {"exp", "expsign", "expdig", "expsep"} /\ ch \in Dec THEN Expo(a, ch)
     ELSE IF q = "expdig" /\ ch = Quote THEN To(a, "expsep")
     ELSE To(a, "dead")

Accepts(a) == a.q = "expdig" \/ (~a.hex /\ a.q \in {"dot", "frac"})

RECURSIVE Run(_, _, _)
Run(a, s, i) == IF i > Len(s) \/ Dead(a) THEN a ELSE Run(Step(a, s[i]), s, i + 1)
Read(s) == Run(Start, s, 1)

(***************************** the value ***********************************)
\* of accepted parts p, as whole + frac/base^prec times 10 or 2 to the exponent
Scale10or2(p) == IF p.hex THEN 2 ELSE 10
ExpOf(p) == IF p.neg THEN NNeg(p.exp) ELSE p.exp
\* exponents beyond this have no representable power
Far(p) == NLt(70, p.exp)
LitValue(p) == RMul(RAdd(<<p.whole, 1>>, <<p.frac, NPow(Base(p), p.prec)>>),
                    Pow(Scale10or2(p), ExpOf(p)))

\* The digits, the scale factors and what the policy computes from them.
LitFits(pol, p, rep) ==
  /\ Fits(p.whole, rep) /\ Fits(p.frac, rep)
  /\ p.prec <= 70 /\ ~Far(p)
  /\ Fits(NPow(Base(p), p.prec), rep)
  /\ Fits(NPow(Scale10or2(p), p.exp), rep)
  /\ LET s == Apply(pol, "plus", "RF", <<p.whole, 1>>, <<p.frac, NPow(Base(p), p.prec)>>)
         x == Apply(pol, "times", "FF", s.out, Pow(Scale10or2(p), ExpOf(p)))
     IN Headroom(s, rep) /\ Headroom(x, rep) /\ FracFits(x.out, rep)
=============================================================================
