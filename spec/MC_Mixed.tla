------------------------------ MODULE MC_Mixed ------------------------------
(***************************************************************************)
(* Exhaustive check of Mixed as a state machine.  A mixed number is built  *)
(* from any small parts, normalized by the steps Fold and Borrow, and then *)
(* takes part in operations; v is the exact value it must have.            *)
(***************************************************************************)
EXTENDS Mixed, TLC
CONSTANTS W, K, Ops, Pols

VARIABLES pol, m, v, pc, n
vars == <<pol, m, v, pc, n>>

Raw == (-K..K) \X (-K..K)
Init == /\ pol \in {PolicyOf(p) : p \in Pols}
        /\ \E w \in -W..W, f \in Raw :
             m = Mix(w, f) /\ v = IF Defined(f) THEN Reduce(RAdd(RInt(w), f)) ELSE Undefined
        /\ pc = "fold" /\ n = 0

DoFold == /\ pc = "fold" /\ pc' = "borrow"
          /\ m' = IF Folds(m) THEN Fold(pol, m).m ELSE m
          /\ UNCHANGED <<pol, v, n>>
DoBorrow == /\ pc = "borrow" /\ pc' = "ready"
            /\ m' = IF Borrows(m) THEN Borrow(pol, m).m ELSE m
            /\ UNCHANGED <<pol, v, n>>

\* Operations leave parts that are not yet normal.
Operate(parts, value) ==
  /\ pc = "ready" /\ n < Ops /\ n' = n + 1 /\ pc' = "fold"
  /\ m' = parts
  /\ v' = IF Defined(value) THEN Reduce(value) ELSE Undefined
  /\ UNCHANGED pol
Negate == Operate(Mix(NNeg(m.w), ApplyNeg(pol, m.f).out),
                  IF Defined(v) THEN RNeg(v) ELSE Undefined)
Add == \E w \in -W..W, f \in Raw :
         /\ Defined(f) \/ f = <<1, 0>>
         /\ LET o == Build(pol, w, f).m
            IN Operate(Mix(NAdd(m.w, o.w), Apply(pol, "plus", "FF", m.f, o.f).out),
                       Meaning("plus", v, MValue(o)))
AddInteger == \E i \in -W..W : Operate(Mix(NAdd(m.w, i), m.f), Meaning("plus", v, <<i, 1>>))
Rebuild == Operate(FromFrac(pol, ToFrac(pol, m).out).c.m, v)
Next == DoFold \/ DoBorrow \/ Negate \/ Add \/ AddInteger \/ Rebuild

ValueKept == Same(MValue(m), v)
Folded == pc = "borrow" => (MDefined(m) => QProper(m.f))
Ready == pc = "ready" => /\ MNormal(m)
                         /\ Defined(v) => NEq(m.w, RTrunc(v))
                         /\ MRight(m, v)
                         /\ MNormal(MOf(v)) /\ Same(MValue(MOf(v)), v)
\* The steps in one operator.
Together == pc = "fold" =>
  LET b == Build(pol, m.w, m.f).m
      f == IF Folds(m) THEN Fold(pol, m).m ELSE m
      g == IF Borrows(f) THEN Borrow(pol, f).m ELSE f
  IN b = g
=============================================================================
