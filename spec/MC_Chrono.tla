------------------------------ MODULE MC_Chrono ------------------------------
(***************************************************************************)
(* A clock that ticks and is wrapped in every pair of small periods, with  *)
(* the readings kept as fractional durations: the readings are the clock's *)
(* instants, converting them is exact in both directions, and arithmetic   *)
(* and comparison of readings in different periods is that of the instants.*)
(***************************************************************************)
EXTENDS Chrono
CONSTANTS MaxTick, Nums, Dens, Steps

Periods == {Lowest(<<n, d>>) : n \in Nums, d \in Dens}
Pols == {"safe", "safe_io", "fast", "fast_o"}

VARIABLES pol, p, q, tick, readings
vars == <<pol, p, q, tick, readings>>

Init == /\ pol \in {PolicyOf(n) : n \in Pols}
        /\ p \in Periods /\ q \in Periods
        /\ tick \in -MaxTick..MaxTick /\ readings = <<>>

Read == /\ Len(readings) < Steps
        /\ readings' = Append(readings, [t |-> tick, r |-> Reading(pol, tick, p, q).out])
        /\ UNCHANGED <<pol, p, q, tick>>
Tick == /\ tick < MaxTick /\ Len(readings) < Steps
        /\ tick' = tick + 1 /\ UNCHANGED <<pol, p, q, readings>>
Next == Read \/ Tick

\* A reading in the period asked for denotes the clock's instant.
Exact == \A i \in DOMAIN readings :
  REq(Seconds(readings[i].r, q), Seconds(<<readings[i].t, 1>>, p))
\* Back in the clock's period it is the tick count again.
Reversible == \A i \in DOMAIN readings :
  Same(Cast(pol, readings[i].r, q, p).out, <<readings[i].t, 1>>)
\* Readings are ordered as the ticks are.
Ordered == \A i, j \in DOMAIN readings :
  \A op \in CmpOps :
    Compare(pol, op, readings[i].r, q, <<readings[j].t, 1>>, p).out
      = CmpMeaning(op, <<readings[i].t, 1>>, <<readings[j].t, 1>>)
\* Differences of readings are those of the ticks, in any mixture of periods.
Differences == \A i, j \in DOMAIN readings :
  LET a == <<readings[i].t, 1>>
      b == <<readings[j].t, 1>>
      d == BinaryMeaning("minus", a, p, b, p)
  IN /\ Same(d, RSub(a, b))
     /\ \A op \in {"plus", "minus", "divides", "modulus"} :
          /\ Same(Binary(pol, op, readings[i].r, q, b, p).out, BinaryMeaning(op, readings[i].r, q, b, p))
          /\ Same(Binary(pol, op, a, p, readings[j].r, q).out, BinaryMeaning(op, a, p, readings[j].r, q))
     /\ Same(RDiv(Seconds(Binary(pol, "minus", a, p, readings[j].r, q).out, CommonPeriod(p, q)), p), d)
\* Scaling commutes with conversion.
Scales == \A i \in DOMAIN readings : \A k \in {-2, 1, 3} :
  LET x == Scaling(pol, "times", readings[i].r, k).out
      y == Scaling(pol, "divides", readings[i].r, k).out
  IN /\ Same(Cast(pol, x, q, p).out, <<k * readings[i].t, 1>>)
     /\ Same(Cast(pol, y, q, p).out, <<readings[i].t, k>>)
CommonDivides == LET k == CommonPeriod(p, q)
                 IN RIsInt(RDiv(p, k)) /\ RIsInt(RDiv(q, k))
==============================================================================
