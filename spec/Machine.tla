------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* Programs over fraction variables (C25; C20 for compound assignment).    *)
(* The state has two layers: reg, the components the library holds,        *)
(* computed by the policy, and val, the exact rationals the program        *)
(* computes with.  An instruction is a tuple                               *)
(*    <<opcode, sub, i, j, k, m>>                                          *)
(*  set   -   i n d .    reg i becomes n/d                                 *)
(*  op    o   i j k .    i := j o k                                        *)
(*  opa   o   i j . .    i o= j            (j may be i)                    *)
(*  opi   o   i j c .    i := j o c        (c an integer)                  *)
(*  iop   o   i c j .    i := c o j                                        *)
(*  opai  o   i c . .    i o= c                                            *)
(*  un    f   i j . .    i := f(j), f in neg pos abs recip reduce ignore   *)
(*                       norm copy                                         *)
(*  whole m   i j . .    i := m(j) as an integer, if j is defined          *)
(*  sel   c   i j k m    if j c k then i := m                              *)
(*  seli  c   i j n m    if j c n then i := m   (n an integer)             *)
(*  isel  c   i n k m    if n c k then i := m                              *)
(*  opac  o   i j c .    i o= numerator (c = 1) or denominator (2) of j    *)
(*  pow   -   i b e .    i := b to the power e                             *)
(*  redenom m i j d .    i := j over the denominator d, rounded by m       *)
(*  text  -   i j . .    j is written to a stream, i read from it          *)
(*  via   -   i j . .    i := j converted to a raw fraction, to a fraction *)
(*                       of another policy and back                        *)
(*  float -   i j . .    i := j by way of a double                         *)
(*  parse -   i w f .    i := the value of the text "w.f"                  *)
(*  mixed -   i j k .    i := j + k as mixed numbers                       *)
(*  hash  -   i j . .    are the hashes of i and j the same?               *)
(***************************************************************************)
EXTENDS Form, Mixed

Target(in) == in[3]

Int1(c) == <<c, 1>>

\* The operation and its operands, as components
OperandsFrom(reg, in) ==
  CASE in[1] = "op" -> <<reg[in[4]], reg[in[5]]>>
    [] in[1] = "opa" -> <<reg[in[3]], reg[in[4]]>>
    [] in[1] = "opi" -> <<reg[in[4]], Int1(in[5])>>
    [] in[1] = "iop" -> <<Int1(in[4]), reg[in[5]]>>
    [] in[1] = "opai" -> <<reg[in[3]], Int1(in[4])>>
FormOf(in) == CASE in[1] \in {"op", "opa"} -> "FF"
                [] in[1] \in {"opi", "opai"} -> "FR"
                [] in[1] = "iop" -> "RF"

\* An instruction that takes a component of a variable, with the integer it is.
Resolve(reg, in) ==
  IF in[1] = "opac" THEN <<"opai", in[2], in[3], reg[in[4]][in[5]], 0, 0>> ELSE in

Arithmetic(in) == in[1] \in {"op", "opa", "opi", "iop", "opai"}

\* What a comparing instruction compares.
Compares(in) == in[1] \in {"sel", "seli", "isel"}
Compared(reg, in) ==
  CASE in[1] = "sel" -> <<reg[in[4]], reg[in[5]]>>
    [] in[1] = "seli" -> <<reg[in[4]], Int1(in[5])>>
    [] in[1] = "isel" -> <<Int1(in[4]), reg[in[5]]>>
CompareForm(in) == CASE in[1] = "sel" -> "FF" [] in[1] = "seli" -> "FR" [] in[1] = "isel" -> "RF"

\* What the text of two integers with a point between them says.
Spelled(w, f) == LET b == IF NLt(f, 10) THEN 10 ELSE 100
                 IN <<NAdd(NMul(w, b), f), b>>

\* Values (in lowest terms) that a double has, and whose way through a double
\* needs no large integers.
Dyadic(v) == /\ NLt(NAbs(v[1]), 1048576)
             /\ \E k \in 0..10 : NEq(v[2], 2 ^ k)

(****************************** the library layer **************************)
\* The sum as mixed numbers, through all of Mixed's steps.
MixedSum(pol, x, y) ==
  LET a == FromFrac(pol, x)
      b == FromFrac(pol, y)
      c == AddMixed(pol, a.c.m, b.c.m)
      f == ToFrac(pol, c.m)
  IN Res(f.out, a.c.wm \o a.c.fm \o a.om \o b.c.wm \o b.c.fm \o b.om
                \o c.wm \o c.fm \o f.mid)

UnaryRes(pol, f, x) ==
  CASE f = "neg" -> ApplyNeg(pol, x)
    [] f \in {"pos", "copy"} -> Res(x, <<>>)
    [] f = "abs" -> IF QNonNegative(x) THEN Res(x, <<>>) ELSE ApplyNeg(pol, x)
    [] f = "recip" -> Res(<<x[2], x[1]>>, <<>>)
    [] f = "reduce" -> Res(Reduce(x), ReduceMid(x, "norm"))
    [] f = "ignore" -> Res(ReduceIgnoreSigns(x), ReduceMid(x, "ignore"))
    [] f = "norm" -> Res(NormalizeSigns(x), <<NNeg(x[1]), NNeg(x[2])>>)

\* Result of the instruction for its target, and the intermediate integers.
Compute(pol, reg, in) ==
  CASE in[1] = "set" -> Res(<<in[4], in[5]>>, <<>>)
    [] Arithmetic(in) ->
         LET o == OperandsFrom(reg, in)
         IN Apply(pol, in[2], FormOf(in), o[1], o[2])
    [] in[1] = "un" -> UnaryRes(pol, in[2], reg[in[4]])
    [] in[1] = "whole" ->
         IF Defined(reg[in[4]]) THEN Res(Int1(Round(reg[in[4]], in[2])), <<>>)
                                ELSE Res(reg[in[4]], <<>>)
    [] Compares(in) ->
         LET o == Compared(reg, in)
             c == ApplyCmp(pol, in[2], CompareForm(in), o[1], o[2])
         IN Res(IF c.out THEN reg[in[6]] ELSE reg[in[3]], c.mid)
    [] in[1] = "pow" -> Res(PowValue(in[4], in[5]), <<>>)
    [] in[1] = "redenom" -> Res(Redenom(reg[in[4]], in[5], in[2]),
                                IF Defined(reg[in[4]]) THEN RedenomMid(pol, reg[in[4]], in[5])
                                                       ELSE <<>>)
    [] in[1] \in {"text", "via"} -> Res(reg[in[4]], <<>>)
    [] in[1] = "float" -> Res(Reduce(reg[in[4]]), ReduceMid(reg[in[4]], "norm"))
    [] in[1] = "parse" -> Res(Spelled(in[4], in[5]), <<>>)
    [] in[1] = "mixed" -> MixedSum(pol, reg[in[4]], reg[in[5]])
    [] in[1] = "hash" -> Res(reg[in[3]], ReduceMid(reg[in[3]], "norm") \o ReduceMid(reg[in[4]], "norm"))

(****************************** the exact layer ****************************)
ExactUnary(f, x) ==
  CASE f = "neg" -> IF Defined(x) THEN RNeg(x) ELSE Undefined
    [] f = "abs" -> IF Defined(x) THEN RAbs(x) ELSE Undefined
    [] f = "recip" -> <<x[2], x[1]>>
    [] OTHER -> x

\* The reciprocal of an undefined fraction depends on its components; a
\* program that wants to stay in exact arithmetic does not ask for it.
Sensible(val, in) ==
  /\ ~(in[1] = "un" /\ in[2] = "recip" /\ ~Defined(val[in[4]]))
  /\ in[1] = "float" => (Defined(val[in[4]]) => Dyadic(val[in[4]]))
\* What may be asked of a representation at all.
Askable(in, rep) == CASE in[1] = "pow" -> PowFits(in[4], in[5], rep)
                      [] in[1] = "redenom" -> NSgn(in[5]) # 0
                      [] in[1] = "parse" -> /\ NSgn(in[4]) >= 0 /\ NLt(in[4], 1000)
                                            /\ NSgn(in[5]) >= 0 /\ NLt(in[5], 100)
                      [] OTHER -> TRUE

\* An exact value is kept in lowest terms.
Exact(val, in) ==
  Reduce(
  CASE in[1] = "set" -> <<in[4], in[5]>>
    [] Arithmetic(in) -> LET o == OperandsFrom(val, in) IN Meaning(in[2], o[1], o[2])
    [] in[1] = "un" -> ExactUnary(in[2], val[in[4]])
    [] in[1] = "whole" -> IF Defined(val[in[4]]) THEN Int1(Round(val[in[4]], in[2]))
                                                 ELSE Undefined
    [] Compares(in) -> IF CmpMeaning(in[2], Compared(val, in)[1], Compared(val, in)[2])
                       THEN val[in[6]] ELSE val[in[3]]
    [] in[1] = "pow" -> PowValue(in[4], in[5])
    [] in[1] = "redenom" -> Redenom(val[in[4]], in[5], in[2])
    [] in[1] \in {"text", "via", "float"} -> val[in[4]]
    [] in[1] = "parse" -> Spelled(in[4], in[5])
    [] in[1] = "mixed" -> Meaning("plus", val[in[4]], val[in[5]])
    [] in[1] = "hash" -> val[in[3]])

Condition(val, in) == CmpMeaning(in[2], Compared(val, in)[1], Compared(val, in)[2])

\* Instructions whose result has the components of their operand, or those
\* that are specified as such.
Exactly(reg, in) ==
  CASE in[1] = "set" -> <<<<in[4], in[5]>>>>
    [] in[1] \in {"text", "via"} -> <<reg[in[4]]>>
    [] in[1] = "un" /\ in[2] \in {"copy", "pos"} -> <<reg[in[4]]>>
    [] in[1] = "hash" -> <<reg[in[3]]>>
    [] in[1] = "redenom" /\ Defined(reg[in[4]]) -> <<Redenom(reg[in[4]], in[5], in[2])>>
    [] OTHER -> <<>>

\* Does the instruction read an undefined operand?
ReadsUndefined(val, in) ==
  CASE Arithmetic(in) -> \E k \in 1..2 : ~Defined(OperandsFrom(val, in)[k])
    [] in[1] \in {"un", "redenom", "text", "via", "whole", "float"} -> ~Defined(val[in[4]])
    [] in[1] = "mixed" -> \E k \in 4..5 : ~Defined(val[in[k]])
    [] OTHER -> FALSE
=============================================================================
