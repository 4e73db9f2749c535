------------------------------ MODULE MC_Combine -----------------------------
(***************************************************************************)
(* All expressions of up to MaxLen tokens over a few policies and          *)
(* representations, built token by token: an accepted one never lets two   *)
(* policies meet without an explicit conversion between them.              *)
(***************************************************************************)
EXTENDS Combine
CONSTANTS PolicySet, RepSet, MaxLen

Leaves == {<<"F", p, r>> : p \in PolicySet, r \in RepSet} \cup {<<"I", r, ".">> : r \in RepSet}
Unary == {<<"N", ".", ".">>} \cup {<<"V", p, r>> : p \in PolicySet, r \in RepSet}
Binary == {<<"O", "plus", ".">>, <<"C", "lt", ".">>, <<"A", "plus", ".">>}

\* exposed: for each value on the stack, the policies that take part in it and
\* have not been converted away
VARIABLES toks, stack, exposed
vars == <<toks, stack, exposed>>
Init == toks = <<>> /\ stack = <<>> /\ exposed = <<>>

Alive == \A i \in DOMAIN stack : stack[i] # TError
Step(tok, e) == /\ toks' = Append(toks, tok)
                /\ stack' = Push(stack, tok)
                /\ exposed' = e
Next == /\ Alive /\ Len(toks) < MaxLen
        /\ \/ \E t \in Leaves : Step(t, Append(exposed, IF t[1] = "F" THEN {t[2]} ELSE {}))
           \/ /\ Len(stack) > 0
              /\ \E t \in Unary : Step(t, IF t[1] = "N" THEN exposed
                                          ELSE Append(Pop(exposed, 1), {t[2]}))
           \/ /\ Len(stack) > 1
              /\ \E t \in Binary : Step(t, Append(Pop(exposed, 2), Below(exposed) \cup Top(exposed)))

NeverMixed == \A i \in DOMAIN stack : Cardinality(exposed[i]) > 1 => stack[i] = TError
ResultPolicy == \A i \in DOMAIN stack : stack[i][1] = "frac" => exposed[i] = {stack[i][2]}
\* Nothing of one policy is rejected, except for lack of a fraction.
Complete == \A i \in DOMAIN stack :
  stack[i] = TError /\ Cardinality(exposed[i]) = 1 =>
    \E j \in DOMAIN toks : toks[j][1] \in {"C", "I"}
Agree == (toks # <<>>) => (Accepted(toks) <=> Alive) /\ Types(<<>>, toks) = stack
MacrosDistinct == \A m, n \in Macros : Selected(m) = Selected(n) => m = n
==============================================================================
