----------------------------- MODULE Denominator -----------------------------
(***************************************************************************)
(* Denominator literals: what 3_fr, -3_fr, ... are, and the fractions made *)
(* with them.  A denominator is [signed, v]: it starts as an unsigned      *)
(* literal, unary minus makes it signed, unary plus leaves it alone.       *)
(* A shape is the sequence of unary operators before the literal, the      *)
(* outermost first.                                                        *)
(***************************************************************************)
EXTENDS Form

Default == PolicyOf("safe_io")

Lit(v) == [signed |-> FALSE, v |-> v]
Pos(x) == x
Neg(x) == [signed |-> TRUE, v |-> NNeg(x.v)]

RECURSIVE Shaped(_, _)
Shaped(shape, v) ==
  IF shape = <<>> THEN Lit(v)
  ELSE LET x == Shaped(Tail(shape), v)
       IN IF Head(shape) = "-" THEN Neg(x) ELSE Pos(x)

\* A signed literal has 64 bits: the argument of minus must fit them.
ShapeFits(shape, v) ==
  (\E i \in DOMAIN shape : shape[i] = "-") => NLe(v, RepMax("llong"))

\* integer / denominator literal
Over(n, x) == <<n, x.v>>
\* fraction / denominator literal
Quotient(f, x) == Apply(Default, "divides", "FR", f, <<x.v, 1>>)

Shapes == << <<>>, <<"+">>, <<"-">>, <<"-", "+">>, <<"+", "-">>, <<"-", "-">>,
             <<"-", "-", "-">>, <<"+", "+">> >>
==============================================================================
