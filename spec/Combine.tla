------------------------------- MODULE Combine -------------------------------
(***************************************************************************)
(* Which expressions over fractions are programs, and of which type.       *)
(* An expression is in postfix form, a sequence of tokens <<kind, a, b>>:  *)
(*   F pol rep   a fraction            I rep     an integer                *)
(*   O op        an arithmetic operator on the two before                  *)
(*   N           minus                 V pol rep an explicit conversion    *)
(*   C op        a comparison          A op      a compound assignment     *)
(* and its type is found on a stack of types <<kind, pol, rep>>, where an  *)
(* integer's policy and a truth value's representation are ".".            *)
(***************************************************************************)
EXTENDS Policy

TFrac(p, r) == <<"frac", p, r>>
TInt(r) == <<"int", ".", r>>
TBool == <<"bool", ".", ".">>
TError == <<"error", ".", ".">>

\* Two operands combine when they are fractions of the same policy or one of
\* them is an integer.
Combines(x, y) ==
  CASE x[1] = "frac" /\ y[1] = "frac" -> x[2] = y[2]
    [] x[1] = "frac" /\ y[1] = "int" -> TRUE
    [] x[1] = "int" /\ y[1] = "frac" -> TRUE
    [] OTHER -> FALSE
PolOf(x, y) == IF x[1] = "frac" THEN x[2] ELSE y[2]

Top(s) == s[Len(s)]
Below(s) == s[Len(s) - 1]
Pop(s, k) == SubSeq(s, 1, Len(s) - k)

Push(s, tok) ==
  LET k == tok[1]
  IN CASE k = "F" -> Append(s, TFrac(tok[2], tok[3]))
       [] k = "I" -> Append(s, TInt(tok[2]))
       [] k = "N" -> IF Top(s)[1] \in {"frac", "int"} THEN s ELSE Append(Pop(s, 1), TError)
       [] k = "V" -> Append(Pop(s, 1), IF Top(s)[1] \in {"frac", "int"} THEN TFrac(tok[2], tok[3])
                                       ELSE TError)
       [] k \in {"O", "C", "A"} ->
            LET x == Below(s)
                y == Top(s)
            IN Append(Pop(s, 2),
                 IF ~Combines(x, y) THEN TError
                 ELSE IF k = "C" THEN TBool
                 ELSE IF k = "A" THEN IF x[1] = "frac" THEN x ELSE TError
                 ELSE TFrac(PolOf(x, y), CommonRep(x[3], y[3])))

RECURSIVE Types(_, _)
Types(s, toks) == IF toks = <<>> THEN s ELSE Types(Push(s, Head(toks)), Tail(toks))
\* An error stays one whatever is done with it: an expression is accepted when
\* none occurs.
RECURSIVE Sound(_, _)
Sound(s, toks) == IF toks = <<>> THEN TRUE
                  ELSE LET t == Push(s, Head(toks)) IN Top(t) # TError /\ Sound(t, Tail(toks))
Accepted(toks) == Sound(<<>>, toks)
TypeOf(toks) == Top(Types(<<>>, toks))

(***************************** selection ***********************************)
Macros == {"SAFE", "SAFE_REDUCED_I", "SAFE_REDUCED_O", "SAFE_REDUCED_IO",
           "FAST", "FAST_REDUCED_I", "FAST_REDUCED_O", "FAST_REDUCED_IO"}
\* of IEME_DEFAULT_OPS_..., or "none"
Selected(macro) ==
  CASE macro = "SAFE" -> "safe" [] macro = "SAFE_REDUCED_I" -> "safe_i"
    [] macro = "SAFE_REDUCED_O" -> "safe_o" [] macro = "SAFE_REDUCED_IO" -> "safe_io"
    [] macro = "FAST" -> "fast" [] macro = "FAST_REDUCED_I" -> "fast_i"
    [] macro = "FAST_REDUCED_O" -> "fast_o" [] macro = "FAST_REDUCED_IO" -> "fast_io"
    [] macro = "none" -> "safe_io"
==============================================================================
