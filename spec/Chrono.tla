------------------------------- MODULE Chrono --------------------------------
(***************************************************************************)
(* Fractional durations: a count of ticks, a fraction, of a period, a      *)
(* positive rational number of seconds.  Seconds is what they mean; Cast   *)
(* and the operators below it are how <chrono> computes on them with the   *)
(* library's fractions, so that the integers on the way are explicit.      *)
(***************************************************************************)
EXTENDS Policy

Seconds(c, per) == RMul(c, per)

Lowest(x) == LET g == NGcd(x[1], x[2]) IN <<NQuot(x[1], g), NQuot(x[2], g)>>
\* The common period: the greatest of which both are multiples.
CommonPeriod(p, q) == Lowest(<<NGcd(NMul(p[1], q[2]), NMul(q[1], p[2])), NMul(p[2], q[2])>>)
Ratio(p, q) == Lowest(RDiv(p, q))

One(k) == NEq(k, 1)

\* The count c of period p as a count of period q.
Cast(pol, c, p, q) ==
  LET k == Ratio(p, q)
      a == IF One(k[1]) THEN Res(c, <<>>) ELSE Apply(pol, "times", "FF", c, <<k[1], 1>>)
      b == IF One(k[2]) THEN Res(a.out, <<>>) ELSE Apply(pol, "divides", "FF", a.out, <<k[2], 1>>)
  IN Res(b.out, <<k[1], k[2]>> \o a.mid \o b.mid)

\* An operation on a count of period p and one of period q, in the common one.
Common(pol, a, p, b, q) ==
  LET per == CommonPeriod(p, q)
      x == Cast(pol, a, p, per)
      y == Cast(pol, b, q, per)
  IN [per |-> per, x |-> x.out, y |-> y.out, mid |-> x.mid \o y.mid]
Binary(pol, op, a, p, b, q) ==
  LET k == Common(pol, a, p, b, q)
      r == Apply(pol, op, "FF", k.x, k.y)
  IN Res(r.out, k.mid \o r.mid)
Compare(pol, op, a, p, b, q) ==
  LET k == Common(pol, a, p, b, q)
      r == ApplyCmp(pol, op, "FF", k.x, k.y)
  IN Res(r.out, k.mid \o r.mid)
Scaling(pol, op, a, i) == Apply(pol, op, "FR", a, <<i, 1>>)

(***************************** meaning *************************************)
CastMeaning(c, p, q) == IF Defined(c) THEN RDiv(Seconds(c, p), q) ELSE Undefined
BinaryMeaning(op, a, p, b, q) ==
  IF ~Defined(a) \/ ~Defined(b) THEN Undefined
  ELSE LET x == Meaning(op, Seconds(a, p), Seconds(b, q))
       IN IF op = "divides" \/ ~Defined(x) THEN x          \* a number
          ELSE RDiv(x, CommonPeriod(p, q))
CompareMeaning(op, a, p, b, q) ==
  IF ~Defined(a) \/ ~Defined(b) THEN op = "ne"
  ELSE CmpMeaning(op, Seconds(a, p), Seconds(b, q))

(***************************** standard units ******************************)
Unit == [nanoseconds |-> <<1, 1000000000>>, microseconds |-> <<1, 1000000>>,
         milliseconds |-> <<1, 1000>>, seconds |-> <<1, 1>>,
         minutes |-> <<60, 1>>, hours |-> <<3600, 1>>]

(***************************** clocks **************************************)
\* What a wrapped clock of period p reports in period q at tick t.
Reading(pol, t, p, q) == Cast(pol, <<t, 1>>, p, q)
==============================================================================
