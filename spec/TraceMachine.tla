---------------------------- MODULE TraceMachine ----------------------------
(***************************************************************************)
(* Runs of programs on the real library against Machine (C25, C20, C05).   *)
(* Each row is one step: the instruction padded to eight arguments, or     *)
(*    <<"init", n1, d1, ..., n4, d4>>                                      *)
(* then status, ub, whether a sel's condition held, and the components of  *)
(* all variables after the step.                                           *)
(*                                                                         *)
(* State: what the components were seen to be (reg), and the exact value   *)
(* each variable must have (val).  A step outside the contract makes no    *)
(* promise: the exact values are then taken from what was observed.        *)
(***************************************************************************)
EXTENDS Machine, TraceBase

VARIABLES l, k, reg, val, lost
vars == <<l, k, reg, val, lost>>
Regs == 1..4

Ev == Trace[l]
Row == Ev.rows[k]
Status(r) == r[10]
Flag(r) == r[12]
Seen(r) == [i \in Regs |-> <<r[11 + 2 * i], r[12 + 2 * i]>>]
\* padded arguments to an instruction
InstrOf(r) == Resolve(reg, SubSeq(r, 1, 6))

\* Register 5: how many instructions of each kind were judged, and were not.
Kinds == {"init", "set", "op", "opa", "opi", "iop", "opai", "opac", "un", "whole", "sel",
          "seli", "isel", "pow", "redenom", "text", "via", "mixed", "hash",
          "float", "parse"}
CountKind(kind, v) ==
  TLCSet(5, [TLCGet(5) EXCEPT ![kind] = IF v = "skip" THEN <<@[1], @[2] + 1>> ELSE <<@[1] + 1, @[2]>>])

Init == /\ l = 1 /\ k = 1 /\ lost = FALSE
        /\ reg = [i \in Regs |-> <<0, 1>>]
        /\ val = reg
        /\ InitRegs /\ TLCSet(5, [x \in Kinds |-> <<0, 0>>])

\* What is wrong with a step that is within its contract, if anything.
StepRight(in, r) ==
  LET new == Seen(r)
      i == Target(in)
      want == Exact(val, in)
  IN /\ Same(new[i], want)
     /\ \A j \in Regs \ {i} : Identical(new[j], reg[j])
     /\ Compares(in) => /\ Flag(r) = Condition(val, in)
                        /\ Identical(new[i], IF Condition(val, in) THEN reg[in[6]] ELSE reg[i])
     /\ in[1] = "hash" => (Same(val[in[3]], val[in[4]]) => Flag(r))
     /\ LET e == Exactly(reg, in) IN \A j \in DOMAIN e : Identical(new[i], e[j])
     /\ Arithmetic(in) => PromisedForm(PolicyOf(Ev.pol), new[i])

Room(in) == /\ Sensible(val, in) /\ Askable(in, Ev.rep)
            /\ LET r == Compute(PolicyOf(Ev.pol), reg, in)
               IN Headroom(r, Ev.rep) /\ FracFits(r.out, Ev.rep)

Verdict3(r) ==
  IF r[1] = "init"
  THEN IF Status(r) = "ok" /\ \A i \in Regs : Identical(Seen(r)[i], <<r[2 * i], r[2 * i + 1]>>)
       THEN "ok" ELSE "bad"
  ELSE IF lost THEN "skip"
  ELSE LET in == InstrOf(r)
       IN IF ~Room(in) THEN "skip"
          ELSE Verdict(Status(r) = "ok" /\ StepRight(in, r))

Advance == IF k < Len(Ev.rows) THEN l' = l /\ k' = k + 1 ELSE l' = l + 1 /\ k' = 1

Step ==
  /\ l <= Len(Trace)
  /\ Advance
  /\ LET v == Verdict3(Row)
         r == Row
     IN /\ IF k = 1 THEN Count(1, 1) ELSE TRUE
        /\ Count(CASE v = "ok" -> 2 [] v = "skip" -> 3 [] OTHER -> 4, 1)
        /\ CountKind(r[1], v)
        /\ v = "bad" => PrintT(<<"REJECT", l, k>>)
        /\ IF Status(r) # "ok" THEN /\ lost' = TRUE
                                    /\ UNCHANGED <<reg, val>>
           ELSE IF lost /\ r[1] # "init" THEN UNCHANGED <<reg, val, lost>>
           ELSE /\ lost' = FALSE
                /\ reg' = Seen(r)
                /\ val' = IF r[1] = "init" \/ v # "ok"
                          THEN [i \in Regs |-> Reduce(Seen(r)[i])]
                          ELSE [val EXCEPT ![Target(InstrOf(r))] = Exact(val, InstrOf(r))]
Next == Step

\* Between the steps: the variables have the exact values.
Refines == \A i \in Regs : Same(reg[i], val[i])

Done == /\ \A x \in Kinds : PrintT(<<"KEY", x, TLCGet(5)[x][1], TLCGet(5)[x][2]>>)
        /\ Summary
=============================================================================
