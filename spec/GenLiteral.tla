----------------------------- MODULE GenLiteral -----------------------------
(***************************************************************************)
(* Literals for the executors, by random walks of the automaton (TLC       *)
(* -simulate): every accepted text on the way is printed.                  *)
(***************************************************************************)
EXTENDS Literal, TLC, Json

VARIABLES text, a
Init == text = <<>> /\ a = Start
Alphabet == {48, 49, 50, 53, 57, 65, 70, 97, 100, 101, 69, 102, 46, 39, 43, 45, 120, 88, 112, 80}
Next == \E ch \in Alphabet :
          /\ a' = Step(a, ch) /\ ~Dead(a')
          /\ text' = Append(text, ch)
          /\ Accepts(a') => PrintT("LIT " \o ToJson(text'))
=============================================================================
