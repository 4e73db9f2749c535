----------------------------- MODULE GenMachine -----------------------------
(***************************************************************************)
(* Generates programs: random behaviours (tlc -simulate) of Machine in     *)
(* which every step is within headroom of the representation.  A behaviour *)
(* is printed as the program that causes it.                               *)
(***************************************************************************)
EXTENDS Machine, TLC, Json, IOUtils

Rep == IOEnv.GEN_REP
PolName == IOEnv.GEN_POL
Depth == atoi(IOEnv.GEN_DEPTH)
Own == atoi(IOEnv.GEN_OWN)              \* the others are only read (C26)

Regs == 1..4
Signs == IF RepSigned(Rep) THEN {1, -1} ELSE {1}
Small == <<0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 6, 7, 8, 9, 10, 12, 15, 21, 36>>
\* a sequence: TLC cannot have numbers of either kind in one set
Large == <<16, 30, 77, 210, 1000, 1023, 46340, 46341, 65536, 1000000, 2147483646, 2147483647>>
         \o (IF Digits(Rep) > 32
             THEN <<"4294967295", "4294967296", "3037000499", "3037000500",
                    "1000000000000", "4611686018427387904", NQuot(RepMax(Rep), 3),
                    NSub(RepMax(Rep), 1), RepMax(Rep)>>
             ELSE <<NQuot(RepMax(Rep), 3), NQuot(RepMax(Rep), 2)>>)
Number(big) == NMul(RandomElement(Signs),
                    IF big THEN Large[RandomElement(DOMAIN Large)] ELSE Small[RandomElement(DOMAIN Small)])

VARIABLES reg, val, prog
vars == <<reg, val, prog>>

\* What is only read has values from the start, the same in all behaviours.
Init == /\ reg \in {[i \in Regs |-> IF i <= Own THEN <<0, 1>>
                                   ELSE <<Number(i = 3), Small[RandomElement(2..20)]>>]}
        /\ val = [i \in Regs |-> Reduce(reg[i])]
        /\ prog = <<>>

\* with a parameter, for TLC evaluates constants without one only once
R(x) == RandomElement(Regs)
T(x) == RandomElement(1..Own)
Op(x) == RandomElement(ArithOps)
Kinds == <<"op", "op", "op", "op", "op", "opa", "opa", "opi", "opi", "iop", "iop",
         "opai", "un", "un", "sel", "sel", "set", "set", "whole", "seli", "isel",
         "opac", "pow", "redenom", "text", "via", "mixed", "hash", "float", "parse">>

Candidate(what) ==
  CASE what = "set" -> LET big == RandomElement(1..3) = 1
                       IN <<"set", "-", T(0), Number(big), Number(big), 0>>
    [] what = "op" -> <<"op", Op(0), T(0), R(0), R(0), 0>>
    [] what = "opa" -> <<"opa", Op(0), T(0), R(0), 0, 0>>
    [] what = "opi" -> <<"opi", Op(0), T(0), R(0), Number(RandomElement(1..4) = 1), 0>>
    [] what = "iop" -> <<"iop", Op(0), T(0), Number(RandomElement(1..4) = 1), R(0), 0>>
    [] what = "opai" -> <<"opai", Op(0), T(0), Number(RandomElement(1..4) = 1), 0, 0>>
    [] what = "un" -> <<"un", RandomElement(IF RepSigned(Rep)
                            THEN {"neg", "pos", "abs", "recip", "reduce", "ignore", "norm", "copy"}
                            ELSE {"pos", "abs", "recip", "reduce", "ignore", "copy"}),
                        T(0), R(0), 0, 0>>
    [] what = "whole" -> <<"whole", RandomElement(Modes), T(0), R(0), 0, 0>>
    [] what = "sel" -> <<"sel", RandomElement(CmpOps), T(0), R(0), R(0), R(0)>>
    [] what = "seli" -> <<"seli", RandomElement(CmpOps), T(0), R(0), Number(RandomElement(1..4) = 1), R(0)>>
    [] what = "isel" -> <<"isel", RandomElement(CmpOps), T(0), Number(RandomElement(1..4) = 1), R(0), R(0)>>
    [] what = "opac" -> <<"opac", Op(0), T(0), R(0), RandomElement(1..2), 0>>
    [] what = "pow" -> <<"pow", "-", T(0), Number(FALSE), RandomElement(-3..5), 0>>
    [] what = "redenom" -> <<"redenom", RandomElement(Modes), T(0), R(0), Number(RandomElement(1..4) = 1), 0>>
    [] what \in {"text", "via", "hash", "float"} -> <<what, "-", T(0), R(0), 0, 0>>
    [] what = "parse" -> <<"parse", "-", T(0), RandomElement(0..999), RandomElement(0..99), 0>>
    [] what = "mixed" -> <<"mixed", "-", T(0), R(0), R(0), 0>>

Possible(asked) ==
  LET in == Resolve(reg, asked) IN
  /\ Sensible(reg, in) /\ Askable(in, Rep)
  /\ Headroom(Compute(PolicyOf(PolName), reg, in), Rep)
  /\ FracFits(Compute(PolicyOf(PolName), reg, in).out, Rep)

Do(asked) == LET in == Resolve(reg, asked) IN
          /\ reg' = [reg EXCEPT ![Target(in)] = Compute(PolicyOf(PolName), reg, in).out]
          /\ val' = [val EXCEPT ![Target(in)] = Exact(val, in)]
          /\ prog' = Append(prog, asked)

\* One instruction is drawn at random.  One that has no room is replaced by a
\* reduction or an assignment, so that programs go on.
Next ==
  /\ Len(prog) < Depth
  /\ \E what \in {Kinds[RandomElement(DOMAIN Kinds)]} :
     \E in \in {Candidate(what)} :
     \E other \in {Candidate(RandomElement({"set", "set", "op", "opi"}))} :
     \E i \in {T(0)} :
       IF ~Defined(reg[i]) /\ RandomElement(1..2) = 1 THEN Do(<<"set", "-", i, Number(FALSE), Small[RandomElement(2..20)], 0>>)
       ELSE IF Possible(in) THEN Do(in)
       ELSE IF Possible(other) THEN Do(other)
       ELSE Do(<<"set", "-", i, Number(FALSE), Small[RandomElement(2..20)], 0>>)

\* What Machine promises holds along each generated behaviour as well.
Refines == \A i \in Regs : Same(reg[i], val[i])

Emit == Len(prog) = Depth => PrintT("PROG " \o ToJson(<<reg[3], reg[4], prog>>))
=============================================================================
