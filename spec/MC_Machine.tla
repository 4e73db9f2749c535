----------------------------- MODULE MC_Machine -----------------------------
(***************************************************************************)
(* Exhaustive: every program of up to Steps instructions over two          *)
(* variables on a small machine word, for every policy.                    *)
(***************************************************************************)
EXTENDS Machine, TLC
CONSTANTS Word, Steps, Policies, Consts, Starts

StartSet == {<<1, 2>>, <<-2, 3>>, <<3, -4>>, <<4, 2>>, <<0, 1>>, <<1, 0>>}

ConstSet == {0, 2, -3}

VARIABLES pol, reg, val, n, last         \* last: the instruction taken
vars == <<pol, reg, val, n, last>>
View == <<pol, reg, val, n>>
Regs == 1..2

Instrs ==
  {<<"op", o, i, j, k, 0>> : o \in ArithOps, i \in {1}, j \in Regs, k \in Regs}
  \cup {<<"opa", o, i, j, 0, 0>> : o \in ArithOps, i \in Regs, j \in Regs}
  \cup {<<"opi", o, 1, 2, c, 0>> : o \in ArithOps, c \in Consts}
  \cup {<<"iop", o, 2, c, 1, 0>> : o \in ArithOps, c \in Consts}
  \cup {<<"opai", o, 2, c, 0, 0>> : o \in ArithOps, c \in Consts}
  \cup {<<"un", f, 1, 2, 0, 0>> : f \in {"neg", "abs", "recip", "reduce", "ignore", "norm", "copy"}}
  \cup {<<"whole", m, 2, 1, 0, 0>> : m \in Modes}
  \cup {<<"sel", c, 1, 1, 2, 2>> : c \in CmpOps}
  \cup {<<"seli", c, 1, 1, k, 2>> : c \in {"lt", "eq"}, k \in Consts}
  \cup {<<"isel", c, 2, k, 1, 1>> : c \in {"le", "ne"}, k \in Consts}
  \cup {<<"opac", o, i, i, c, 0>> : o \in {"minus", "divides"}, i \in Regs, c \in 1..2}
  \cup {<<"pow", "-", 1, b, e, 0>> : b \in Consts, e \in {-2, 3}}
  \cup {<<"redenom", m, 1, 2, d, 0>> : m \in Modes, d \in {3, -2}}
  \cup {<<"via", "-", 1, 2, 0, 0>>, <<"mixed", "-", 2, 1, 2, 0>>, <<"mixed", "-", 1, 1, 1, 0>>,
        <<"float", "-", 1, 2, 0, 0>>, <<"parse", "-", 2, 1, 5, 0>>}

Init == /\ pol \in Policies
        /\ reg \in [Regs -> Starts]
        /\ val = [i \in Regs |-> Reduce(reg[i])]
        /\ n = 0
        /\ last = <<"set", "-", 1, 0, 1, 0>>

Room(r) == AllFit(r.mid, -Word, Word)

Do(asked) ==
  LET in == Resolve(reg, asked) IN
  /\ n < Steps
  /\ Sensible(val, in)
  /\ LET r == Compute(PolicyOf(pol), reg, in)
     IN /\ Room(r)
        /\ reg' = [reg EXCEPT ![Target(in)] = r.out]
        /\ val' = [val EXCEPT ![Target(in)] = Exact(val, in)]
  /\ n' = n + 1
  /\ last' = in
  /\ UNCHANGED pol

Next == \E in \in Instrs : Do(in)
Spec == Init /\ [][Next]_vars

\* C25: the library layer refines the exact one.
Refines == \A i \in Regs : Same(reg[i], val[i])

\* C03 over histories: a step that reads an undefined value yields one.
Sticky == [][ReadsUndefined(val, last') => ~Defined(val'[Target(last')])]_vars

\* C05 over histories: whatever arithmetic assigns is in the promised form.
Promised == [][(Arithmetic(last') \/ last'[2] = "neg")
               => PromisedForm(PolicyOf(pol), reg'[Target(last')])]_vars

\* Variables a step does not assign keep their components.
Frame == [][\A i \in Regs : i # Target(last') => reg'[i] = reg[i]]_vars
=============================================================================
