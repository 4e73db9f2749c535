----------------------------- MODULE MC_Policy ------------------------------
(***************************************************************************)
(* Exhaustive check of the policies' design on a machine whose integers    *)
(* are -Word..Word: every policy, every pair of raw fractions (undefined   *)
(* ones, unreduced ones and ones with negative denominators included),     *)
(* every operation and form.  One behaviour loads a policy and a left      *)
(* operand, then each right operand.                                       *)
(***************************************************************************)
EXTENDS Policy, TLC
CONSTANTS Comp,        \* components of operands: -Comp..Comp
          Word,        \* representable integers: -Word..Word
          Policies

VARIABLES pol, a, b, loaded
vars == <<pol, a, b, loaded>>

Raw == (-Comp..Comp) \X (-Comp..Comp)

Init == /\ pol \in Policies
        /\ a \in Raw
        /\ b = <<0, 1>>
        /\ loaded = FALSE

Load == /\ ~loaded
        /\ b' \in Raw
        /\ loaded' = TRUE
        /\ UNCHANGED <<pol, a>>

Next == Load
Spec == Init /\ [][Next]_vars

P == PolicyOf(pol)
FormsOf == {"FF"} \cup (IF b[2] = 1 THEN {"FR"} ELSE {})
                  \cup (IF a[2] = 1 THEN {"RF"} ELSE {})
Room(r) == AllFit(r.mid, -Word, Word)

\* C01, C02, C03: within headroom a policy's result is the exact one.
ArithRefines ==
  loaded => \A op \in ArithOps, f \in FormsOf :
              LET r == Apply(P, op, f, a, b)
              IN Room(r) => Same(r.out, Meaning(op, a, b))
NegRefines ==
  LET r == ApplyNeg(P, a)
  IN Room(r) => Same(r.out, IF Defined(a) THEN RNeg(a) ELSE Undefined)

\* C02: the exact remainder is the remainder of truncated division.
ModLaw ==
  loaded /\ Defined(a) /\ Defined(b) /\ RSgn(b) # 0 =>
    IsMod(Meaning("modulus", a, b), a, b)

\* C04
CmpRefines ==
  loaded => \A op \in CmpOps, f \in FormsOf :
              LET r == ApplyCmp(P, op, f, a, b)
              IN Room(r) => r.out = CmpMeaning(op, a, b)
CmpConsistent ==
  loaded /\ Defined(a) /\ Defined(b) =>
    /\ Cardinality({op \in {"lt", "eq", "gt"} : CmpMeaning(op, a, b)}) = 1
    /\ CmpMeaning("le", a, b) = (CmpMeaning("lt", a, b) \/ CmpMeaning("eq", a, b))
    /\ CmpMeaning("ge", a, b) = CmpMeaning("le", b, a)
    /\ CmpMeaning("ne", a, b) = ~CmpMeaning("eq", a, b)

\* C05: also without headroom, since it is about the form alone.
FormPromised ==
  /\ PromisedForm(P, ApplyNeg(P, a).out)
  /\ loaded => \A op \in ArithOps, f \in FormsOf :
                 PromisedForm(P, Apply(P, op, f, a, b).out)

\* C06: safe needs no more headroom than fast, and an input-reducing policy
\* no more than the one it wraps.
Without(p) == [p EXCEPT !.rin = "no"]
AsFast(p) == [p EXCEPT !.base = "fast"]
HeadroomOrder ==
  loaded => \A op \in ArithOps :
    /\ Room(Apply(AsFast(P), op, "FF", a, b)) => Room(Apply([P EXCEPT !.base = "safe"], op, "FF", a, b))
    /\ Room(Apply(Without(P), op, "FF", a, b)) => Room(Apply(P, op, "FF", a, b))

\* C06, in the words of the property: representable over the least common
\* denominator is enough.
LcmRoom ==
  loaded /\ P.base = "safe" /\ Defined(a) /\ Defined(b) =>
    LET x == ReduceMode(a, P.rin)
        y == ReduceMode(b, P.rin)
        k == Lcm(x[2], y[2])
        fits(v) == -Word <= v /\ v <= Word
    IN /\ fits(k) /\ fits(Scale(k, x)) /\ fits(Scale(k, y))
       => /\ fits(Scale(k, x) + Scale(k, y)) => Room(Apply(P, "plus", "FF", a, b))
          /\ fits(Scale(k, x) - Scale(k, y)) => Room(Apply(P, "minus", "FF", a, b))
          /\ Room(Apply(P, "modulus", "FF", a, b))
          /\ \A op \in CmpOps : Room(ApplyCmp(P, op, "FF", a, b))
=============================================================================
