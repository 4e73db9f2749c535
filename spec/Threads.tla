------------------------------ MODULE Threads -------------------------------
(***************************************************************************)
(* Programs of Machine run by several threads (C26).  Every thread has     *)
(* variables of its own; others are shared and only read.  A call of the   *)
(* library is not one step: it fetches its operands, works, and stores its *)
(* result, and the steps of different threads interleave.                  *)
(*                                                                         *)
(* What the library does between fetch and store is its design:            *)
(*   pure       nothing that another thread sees                           *)
(*   perthread  remembers its last outcome, each thread its own            *)
(*   locked     remembers its last outcome, under a lock                   *)
(*   memo       remembers its last outcome in common, without a lock       *)
(*   scratch    puts its result aside in common storage                    *)
(*   lazy       reduces an operand in place when it is only read           *)
(* With the first three each thread has the outcomes it has when it runs   *)
(* alone and no two threads ever compete for a location; each of the       *)
(* others violates both (MC_Threads_*.cfg).                                *)
(***************************************************************************)
EXTENDS Machine, TLC
CONSTANTS Thread, Designs, Policies, Length, Starts

VARIABLES design, pol, prog, n, own, shared, pc, loc, memo, lock
vars == <<design, pol, prog, n, own, shared, pc, loc, memo, lock>>

Instrs == {<<"op", "plus", 1, 1, 2, 0>>, <<"op", "divides", 1, 2, 1, 0>>,
           <<"opai", "times", 1, -2, 0, 0>>, <<"un", "reduce", 1, 2, 0, 0>>,
           <<"sel", "lt", 1, 1, 2, 2>>}

None == <<"none">>
Regs(x, s) == <<x, s>>
Key(regs, in) == <<in, regs>>
Result(regs, in) == Compute(PolicyOf(pol), regs, in).out

\* The thread's own variable after k calls of its program, run alone.
RECURSIVE Alone(_, _, _)
Alone(t, k, start) ==
  IF k = 0 THEN start
  ELSE Result(Regs(Alone(t, k - 1, start), shared), prog[t][k])

Slot(t) == IF design = "perthread" THEN t ELSE 0
Init ==
  /\ design \in Designs /\ pol \in Policies
  /\ prog \in [Thread -> [1..Length -> Instrs]]
  /\ n = [t \in Thread |-> 0]
  /\ own = [t \in Thread |-> <<3, 2>>]
  /\ shared \in Starts
  /\ pc = [t \in Thread |-> "idle"]
  /\ loc = [t \in Thread |-> [regs |-> <<>>, out |-> None]]
  /\ memo = [s \in Thread \cup {0} |-> [key |-> None, out |-> <<0, 1>>]]
  /\ lock = 0

In(t) == prog[t][n[t] + 1]
Remembers == design \in {"perthread", "locked", "memo"}
To(t, where) == pc' = [pc EXCEPT ![t] = where]

Fetch(t) ==
  /\ pc[t] = "idle" /\ n[t] < Length
  /\ loc' = [loc EXCEPT ![t] = [regs |-> Regs(own[t], shared), out |-> None]]
  /\ shared' = IF design = "lazy" THEN Reduce(shared) ELSE shared
  /\ To(t, IF design = "locked" THEN "lock" ELSE IF Remembers THEN "look" ELSE "work")
  /\ UNCHANGED <<n, own, memo, lock>>
Lock(t) ==
  /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ To(t, "look")
  /\ UNCHANGED <<n, own, shared, loc, memo>>
Look(t) ==
  /\ pc[t] = "look"
  /\ To(t, IF memo[Slot(t)].key = Key(loc[t].regs, In(t)) THEN "hit" ELSE "work")
  /\ UNCHANGED <<n, own, shared, loc, memo, lock>>
Hit(t) ==
  /\ pc[t] = "hit"
  /\ loc' = [loc EXCEPT ![t].out = memo[Slot(t)].out]
  /\ To(t, IF design = "locked" THEN "unlock" ELSE "store")
  /\ UNCHANGED <<n, own, shared, memo, lock>>
Work(t) ==
  /\ pc[t] = "work"
  /\ loc' = [loc EXCEPT ![t].out = Result(loc[t].regs, In(t))]
  /\ To(t, IF Remembers THEN "keepkey" ELSE IF design = "scratch" THEN "spill" ELSE "store")
  /\ UNCHANGED <<n, own, shared, memo, lock>>
KeepKey(t) ==
  /\ pc[t] = "keepkey"
  /\ memo' = [memo EXCEPT ![Slot(t)].key = Key(loc[t].regs, In(t))]
  /\ To(t, "keepout")
  /\ UNCHANGED <<n, own, shared, loc, lock>>
KeepOut(t) ==
  /\ pc[t] \in {"keepout", "spill"}
  /\ memo' = [memo EXCEPT ![Slot(t)].out = loc[t].out]
  /\ To(t, IF pc[t] = "spill" THEN "hit" ELSE IF design = "locked" THEN "unlock" ELSE "store")
  /\ UNCHANGED <<n, own, shared, loc, lock>>
Unlock(t) ==
  /\ pc[t] = "unlock" /\ lock = t /\ lock' = 0 /\ To(t, "store")
  /\ UNCHANGED <<n, own, shared, loc, memo>>
Store(t) ==
  /\ pc[t] = "store"
  /\ own' = [own EXCEPT ![t] = loc[t].out]
  /\ n' = [n EXCEPT ![t] = @ + 1]
  /\ To(t, "idle")
  /\ UNCHANGED <<shared, loc, memo, lock>>

Next == /\ \E t \in Thread : Fetch(t) \/ Lock(t) \/ Look(t) \/ Hit(t) \/ Work(t) \/ KeepKey(t)
                             \/ KeepOut(t) \/ Unlock(t) \/ Store(t)
        /\ UNCHANGED <<design, pol, prog>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* The locations the next step of a thread uses, and whether it writes them.
Access(t) ==
  CASE pc[t] = "idle" -> IF n[t] < Length THEN {<<"shared", 0, design = "lazy">>} ELSE {}
    [] pc[t] = "look" -> {<<"key", Slot(t), FALSE>>}
    [] pc[t] = "hit" -> {<<"out", Slot(t), FALSE>>}
    [] pc[t] = "keepkey" -> {<<"key", Slot(t), TRUE>>}
    [] pc[t] \in {"keepout", "spill"} -> {<<"out", Slot(t), TRUE>>}
    [] OTHER -> {}

\* C26: what a thread has is what it has when it runs alone.
Independent == \A t \in Thread : own[t] = Alone(t, n[t], <<3, 2>>)
\* C26: no data race.
NoRace == \A t, u \in Thread : t # u =>
            \A a \in Access(t), b \in Access(u) :
              ~(a[1] = b[1] /\ a[2] = b[2] /\ (a[3] \/ b[3]))
\* C26: what is shared is not modified.
Unmodified == [][shared' = shared]_vars
\* Every program ends: no thread waits for another for ever.
Ends == <>(\A t \in Thread : n[t] = Length)
=============================================================================
