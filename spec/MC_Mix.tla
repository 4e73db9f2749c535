------------------------------- MODULE MC_Mix -------------------------------
(***************************************************************************)
(* The common type and the conversion to it: laws over all pairs of        *)
(* representations, and for small components of every sign that values     *)
(* survive the conversion whenever both representations can hold them.     *)
(***************************************************************************)
EXTENDS Policy, TLC
CONSTANTS Comp

Reps == {"int", "unsigned", "long", "ulong", "llong", "ullong"}
Operand == Reps \cup {"short", "ushort", "schar"}
VARIABLES a, b, x
Init == a \in Operand /\ b \in Operand /\ x \in (-Comp..Comp) \X (-Comp..Comp)
        /\ ~(a \in Operand \ Reps /\ b \in Operand \ Reps)
Next == UNCHANGED <<a, b, x>>

C == CommonRep(a, b)
Holds(rep, y) == Fits(y[1], rep) /\ Fits(y[2], rep)
Commutes == C = CommonRep(b, a) /\ CommonRep(a, a) = a
OneOfBoth == C \in {a, b} \/ (C = "ullong" /\ {a, b} = {"llong", "ulong"})
Widens == Digits(C) >= (IF a \in Reps THEN Digits(a) ELSE 0)
\* The only values lost are negative ones to an unsigned type.
Keeps == (a \in Reps /\ Holds(a, x)) =>
           \A k \in 1..2 : IF x[k] >= 0 \/ RepSigned(C)
                           THEN NEq(Wrap(x[k], C), x[k])
                           ELSE NEq(NAdd(NSub(RepMax(C), Wrap(x[k], C)), 1), -x[k])
Associates == \A c \in Reps : (a \in Reps /\ b \in Reps) =>
                                CommonRep(CommonRep(a, b), c) = CommonRep(a, CommonRep(b, c))
=============================================================================
