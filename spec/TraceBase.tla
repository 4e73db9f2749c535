----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Reading recorded events.  A trace is a file of JSON records, one per    *)
(* step; a record of many independent calls of one function carries them   *)
(* as ev.rows, one call per row:                                           *)
(*    <<arguments..., status, ub, results...>>                             *)
(* A validating module steps through the records and judges each call      *)
(* with one of the words below.  A "bad" call is printed, and the runner   *)
(* turns it into a violation; nothing is ever repaired or skipped          *)
(* silently: the postcondition demands that every record was consumed and  *)
(* prints how many calls were judged.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP                      \* the property to decide

\* "ok": judged and right.  "skip": the contract makes no promise about it.
\* "bad": judged and wrong.
Verdict(right) == IF right THEN "ok" ELSE "bad"

\* registers: 1 consumed records, 2 ok, 3 skip, 4 bad
InitRegs == TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0) /\ TLCSet(4, 0)
Count(reg, n) == TLCSet(reg, TLCGet(reg) + n)

\* Judging all rows of the record at position l.
JudgeRows(l, Judge(_, _)) ==
  LET ev == Trace[l]
      js == {<<Judge(ev, ev.rows[k]), k>> : k \in DOMAIN ev.rows}
      bad == {j[2] : j \in {j \in js : j[1] = "bad"}}
      ok == Cardinality({j \in js : j[1] = "ok"})
  IN /\ Count(1, 1)
     /\ Count(2, ok)
     /\ Count(4, Cardinality(bad))
     /\ Count(3, Len(ev.rows) - ok - Cardinality(bad))
     /\ PrintT(<<"KEY", ev.key, ok, Len(ev.rows) - ok - Cardinality(bad)>>)
     /\ \A k \in bad : PrintT(<<"REJECT", l, k>>)

\* Judging a step of a state machine: right is the whole guard.
JudgeStep(l, verdict) ==
  /\ Count(1, 1)
  /\ Count(CASE verdict = "ok" -> 2 [] verdict = "skip" -> 3 [] OTHER -> 4, 1)
  /\ verdict = "bad" => PrintT(<<"REJECT", l, 0>>)

Summary ==
  /\ PrintT(<<"SUMMARY", TLCGet(1), TLCGet(2), TLCGet(3), TLCGet(4)>>)
  /\ TLCGet(1) = Len(Trace)
=============================================================================
