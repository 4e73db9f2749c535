---------------------------- MODULE TraceChannel ----------------------------
(***************************************************************************)
(* Recorded histories of a stream written and read in turns (C14).  A      *)
(* record is one history from an empty stream; its rows are                *)
(*   <<operation, a, b, status, ub, failed, n, d, position, appended>>     *)
(***************************************************************************)
EXTENDS Stream, TraceBase

VARIABLES l, k, c
vars == <<l, k, c>>
Ev == Trace[l]
Row == Ev.rows[k]

Init == l = 1 /\ k = 1 /\ c = Channel /\ InitRegs

\* What follows the operation, and what was read: <<channel, fraction>>.
After(r) ==
  LET no == <<0, 0>>
      rf == ReadFrac(c, Ev.rep)
      ri == ReadInt(c, Ev.rep)
  IN CASE r[1] = "reset" -> <<Channel, no>>
       [] r[1] = "clear" -> <<Clear(c), no>>
       [] r[1] \in {"write", "writeraw"} -> <<WriteFrac(c, <<r[2], r[3]>>), no>>
       [] r[1] = "int" -> <<WriteInt(c, r[2]), no>>
       [] r[1] = "text" -> <<WriteText(c, r[2]), no>>
       [] r[1] \in {"read", "readraw"} -> <<rf.c, rf.x>>
       [] r[1] = "readint" -> <<ri.c, <<ri.v, 0>> >>
Reads == {"read", "readraw", "readint"}

Next ==
  /\ l <= Len(Trace)
  /\ IF k < Len(Ev.rows) THEN l' = l /\ k' = k + 1 ELSE l' = l + 1 /\ k' = 1
  /\ LET r == Row
         a == After(r)
         new == SubSeq(a[1].text, Len(c.text) + 1, Len(a[1].text))
         right == /\ r[4] = "ok"
                  /\ r[6] = a[1].r.failed
                  /\ (r[1] \in Reads /\ ~a[1].r.failed) =>
                        /\ NEq(r[7], a[2][1])
                        /\ r[1] # "readint" => NEq(r[8], a[2][2])
                        /\ r[9] = a[1].r.pos
                  /\ r[10] = (IF r[1] = "reset" THEN <<>> ELSE new)
         v == IF a[1].r.loose THEN "skip" ELSE Verdict(right)
     IN /\ IF k = 1 THEN Count(1, 1) ELSE TRUE
        /\ Count(CASE v = "ok" -> 2 [] v = "skip" -> 3 [] OTHER -> 4, 1)
        /\ v = "bad" => PrintT(<<"REJECT", l, k>>)
        /\ c' = CASE v = "ok" -> a[1]
                  [] OTHER -> [a[1] EXCEPT !.r = Loose(Reader(0))]  \* lost until the next reset
=============================================================================
