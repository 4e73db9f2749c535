---------------------------- MODULE TraceThreads ----------------------------
(***************************************************************************)
(* Programs that ran next to each other against Threads (C26).  A record   *)
(* is one thread's program; a row is one step of it:                       *)
(*    instruction (nine), status, how often the step had another outcome   *)
(*    than alone, the outcome alone, an outcome together                   *)
(* where an outcome is a comparison's result and the components of the     *)
(* four variables, of which the last two are shared and only read.         *)
(* ev.races is the number of data races seen while the group ran.          *)
(*                                                                         *)
(* Independent: the thread's variables are those of the program run alone. *)
(* Unmodified: the shared ones are what they were.  NoRace: ev.races = 0.  *)
(***************************************************************************)
EXTENDS Machine, TraceBase

VARIABLES l, k, common
vars == <<l, k, common>>

Ev == Trace[l]
Row == Ev.rows[k]
Alone(r) == SubSeq(r, 12, 20)
Together(r) == SubSeq(r, 21, 29)
Shared(outcome) == SubSeq(outcome, 6, 9)
Equal(a, b) == a[1] = b[1] /\ \A i \in 2..9 : NEq(a[i], b[i])

Init == l = 1 /\ k = 1 /\ common = <<>> /\ InitRegs

Right(r) == /\ r[10] = "ok" /\ r[11] = 0
            /\ Equal(Alone(r), Together(r))
            /\ common # <<>> => \A i \in 1..4 : NEq(Shared(Together(r))[i], common[i])
            /\ k = 1 => Ev.races = 0

Step ==
  /\ l <= Len(Trace)
  /\ LET v == Verdict(Right(Row))
     IN /\ IF k = 1 THEN Count(1, 1) ELSE TRUE
        /\ Count(IF v = "ok" THEN 2 ELSE 4, 1)
        /\ k = 1 => PrintT(<<"KEY", Ev.key, Len(Ev.rows), 0>>)
        /\ v = "bad" => PrintT(<<"REJECT", l, k>>)
  /\ IF k < Len(Ev.rows)
     THEN /\ l' = l /\ k' = k + 1
          /\ common' = IF k = 1 /\ Row[10] = "ok" THEN Shared(Alone(Row)) ELSE common
     ELSE l' = l + 1 /\ k' = 1 /\ common' = <<>>
Next == Step

Done == Summary
=============================================================================
