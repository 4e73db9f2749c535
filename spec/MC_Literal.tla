----------------------------- MODULE MC_Literal -----------------------------
(***************************************************************************)
(* Every text over an alphabet with all kinds of characters, read by the   *)
(* automaton of Literal one character per step.                            *)
(***************************************************************************)
EXTENDS Literal, TLC
CONSTANTS MaxLen, Alphabet

VARIABLES text, a
vars == <<text, a>>
Init == text = <<>> /\ a = Start
Next == /\ Len(text) < MaxLen
        /\ \E ch \in Alphabet : text' = Append(text, ch) /\ a' = Step(a, ch)

SameLanguage == Accepts(a) = IsLiteral(text)
SameValue == Accepts(a) => LET p == PartsOf(text)
                           IN /\ \A f \in {"hex", "whole", "frac", "prec", "neg", "exp"} : a[f] = p[f]
                              /\ Same(LitValue(a), LitValue(p))
\* nothing dead comes back to life, and no live prefix is hopeless
DeadStays == Dead(a) => ~IsLiteral(text)
Completions == {<<>>, <<49>>, <<46>>, <<49, 46>>, <<112, 49>>, <<49, 112, 49>>}
Hopeful == (~Dead(a)) => \E c \in Completions : IsLiteral(text \o c)
Uncased(ch) == IF ch \in 65..90 THEN ch + 32 ELSE ch
CaseBlind == IsLiteral(text) = IsLiteral([i \in DOMAIN text |-> Uncased(text[i])])
=============================================================================
