--------------------------- MODULE TraceContainer ---------------------------
(***************************************************************************)
(* Recorded histories of unordered containers keyed by fractions (C13).    *)
(* A record is one history from an empty container; its rows are           *)
(*   <<operation, n, d, v, status, ub, answer, size>>                      *)
(*   reset; insert, erase, find (answer: how many inserted, erased, found);*)
(*   put and get of a map (answer: the value found, -1 for none); hash     *)
(* Hashes are a function of the value for the whole history: seen is what  *)
(* is known of it.                                                         *)
(***************************************************************************)
EXTENDS Container, TraceBase

VARIABLES l, k, c, lost, seen
vars == <<l, k, c, lost, seen>>
Ev == Trace[l]
Row == Ev.rows[k]
X(r) == <<r[2], r[3]>>

Init == l = 1 /\ k = 1 /\ c = Empty /\ lost = FALSE /\ seen = <<>> /\ InitRegs

After(r) == CASE r[1] = "reset" -> Empty
              [] r[1] = "insert" -> Insert(c, X(r), r[4])
              [] r[1] = "erase" -> Erase(c, X(r))
              [] r[1] = "put" -> Put(c, X(r), r[4])
              [] OTHER -> c
Answer(r) == CASE r[1] = "reset" -> 0
               [] r[1] = "insert" -> IF Has(c, X(r)) THEN 0 ELSE 1
               [] r[1] \in {"erase", "find"} -> IF Has(c, X(r)) THEN 1 ELSE 0
               [] r[1] = "put" -> r[4]
               [] r[1] = "get" -> IF Has(c, X(r)) THEN Get(c, X(r)) ELSE -1
Known(r) == Key(X(r)) \in DOMAIN seen
RightHash(r) == r[5] = "ok" /\ (Defined(X(r)) /\ Known(r) => r[7] = seen[Key(X(r))])
Right(r) == IF r[1] = "hash" THEN RightHash(r) ELSE
            r[5] = "ok" /\ NEq(r[7], Answer(r)) /\ NEq(r[8], Size(After(r)))

Next ==
  /\ l <= Len(Trace)
  /\ IF k < Len(Ev.rows) THEN l' = l /\ k' = k + 1 ELSE l' = l + 1 /\ k' = 1
  /\ LET r == Row
         v == IF lost /\ r[1] \notin {"reset", "hash"} THEN "skip" ELSE Verdict(Right(r))
     IN /\ IF k = 1 THEN Count(1, 1) ELSE TRUE
        /\ Count(CASE v = "ok" -> 2 [] v = "skip" -> 3 [] OTHER -> 4, 1)
        /\ v = "bad" => PrintT(<<"REJECT", l, k>>)
        /\ lost' = IF r[1] = "hash" THEN lost ELSE v # "ok"    \* nothing is known until the next reset
        /\ c' = IF v = "ok" \/ r[1] = "hash" THEN After(r) ELSE Empty
        /\ seen' = CASE k = Len(Ev.rows) -> <<>>
                     [] r[1] = "hash" /\ r[5] = "ok" /\ Defined(X(r)) /\ ~Known(r) -> (Key(X(r)) :> r[7]) @@ seen
                     [] OTHER -> seen
=============================================================================
