----------------------------- MODULE MC_Channel -----------------------------
(***************************************************************************)
(* A stream written and read in turns is a queue: fractions arrive in the  *)
(* order they were sent in, whatever is written between two reads; a read  *)
(* of an empty queue fails, and after clear the queue goes on.             *)
(***************************************************************************)
EXTENDS Stream, TLC
CONSTANTS Count

Comps == {0, -12}
Seps == {<<32>>, <<10, 9>>}

VARIABLES c, queue, sent, wrong
vars == <<c, queue, sent, wrong>>
Init == c = Channel /\ queue = <<>> /\ sent = 0 /\ wrong = FALSE

\* a separator is needed only between fractions that wait together
Send == /\ sent < Count /\ ~c.r.failed
        /\ \E x \in Comps \X Comps, s \in Seps \cup (IF queue = <<>> THEN {<<>>} ELSE {}) :
             /\ c' = WriteFrac(WriteText(c, s), x)
             /\ queue' = Append(queue, x)
        /\ sent' = sent + 1 /\ UNCHANGED wrong
Trail == /\ ~c.r.failed /\ (IF c.text = <<>> THEN TRUE ELSE At(c.text, Len(c.text) - 1) \notin Space)
         /\ \E s \in Seps : c' = WriteText(c, s)
         /\ UNCHANGED <<queue, sent, wrong>>
Receive == LET o == ReadFrac(c, "int")
           IN /\ c' = o.c
              /\ wrong' = (o.c.r.loose \/ (o.c.r.failed # (queue = <<>> \/ c.r.failed))
                             \/ (~o.c.r.failed /\ ~Identical(o.x, Head(queue))))
              /\ queue' = IF o.c.r.failed THEN queue ELSE Tail(queue)
              /\ UNCHANGED sent
Recover == c' = Clear(c) /\ UNCHANGED <<queue, sent, wrong>>
Next == Send \/ Trail \/ Receive \/ Recover

Fifo == ~wrong /\ ~c.r.loose
Bound == Len(c.text) <= 9 * Count
=============================================================================
