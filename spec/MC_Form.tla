------------------------------ MODULE MC_Form -------------------------------
(***************************************************************************)
(* Exhaustive check of Form and Frac on small components.  A state is a    *)
(* fraction, then a second one or an integer to combine it with.           *)
(***************************************************************************)
EXTENDS Form, TLC
CONSTANTS Comp, Word

VARIABLES x, y, step
vars == <<x, y, step>>
Raw == (-Comp..Comp) \X (-Comp..Comp)

Init == x \in Raw /\ y = <<0, 1>> /\ step = "one"
Next == step = "one" /\ step' = "two" /\ y' \in Raw /\ UNCHANGED x

R(i) == <<i, 1>>
One == step = "one"
DefX == One /\ Defined(x)

\* C07
ReduceLaws ==
  DefX =>
    /\ Canonical(Reduce(x)) /\ Same(Reduce(x), x)
    /\ Reduce(Reduce(x)) = Reduce(x)
    /\ LowestTerms(ReduceIgnoreSigns(x)) /\ Same(ReduceIgnoreSigns(x), x)
    /\ ReduceIgnoreSigns(ReduceIgnoreSigns(x)) = ReduceIgnoreSigns(x)
    /\ \A k \in 1..2 : NSgn(ReduceIgnoreSigns(x)[k]) = NSgn(x[k])
    /\ NormalizeSigns(x)[2] > 0 /\ Same(NormalizeSigns(x), x)
    /\ NormalizeSigns(NormalizeSigns(x)) = NormalizeSigns(x)
    /\ Reduce(x) = ReduceIgnoreSigns(NormalizeSigns(x))
ReduceUnique ==
  (step = "two" /\ Defined(x) /\ Defined(y)) =>
    /\ (Same(x, y) <=> Reduce(x) = Reduce(y))
    /\ (Canonical(x) /\ Canonical(y) /\ Same(x, y) => x = y)
\* C03
ReduceUndefined == (One /\ ~Defined(x)) => Reduce(x) = Undefined

\* C08
QueryLaws ==
  One =>
    /\ Defined(x) => /\ Cardinality({q \in {"p", "z", "n"} :
                          CASE q = "p" -> QPositive(x) [] q = "z" -> QZero(x)
                            [] q = "n" -> QNegative(x)}) = 1
                     /\ QNonNegative(x) = ~QNegative(x)
                     /\ QNonPositive(x) = ~QPositive(x)
                     /\ QInteger(x) = (x[2] # 0 /\ \E k \in -Word..Word : x[1] = k * x[2])
                     /\ QUnit(x) = (\E k \in -Comp..Comp : k # 0 /\ Same(x, <<1, k>>))
                     /\ QProper(x) = (NQuot(x[1], x[2]) = 0)
                     /\ QReduced(x) = (Reduce(x) = x)
    /\ ~Defined(x) => ~(QPositive(x) \/ QNegative(x) \/ QZero(x) \/ QNonNegative(x)
                        \/ QNonPositive(x) \/ QInteger(x) \/ QUnit(x) \/ QProper(x)
                        \/ QReduced(x) \/ QReducedIgnoreSigns(x))
\* queries by value do not depend on the form
QueryByValue ==
  (step = "two" /\ Same(x, y)) =>
    /\ QPositive(x) = QPositive(y) /\ QNegative(x) = QNegative(y)
    /\ QZero(x) = QZero(y) /\ QInteger(x) = QInteger(y)
    /\ QUnit(x) = QUnit(y) /\ QProper(x) = QProper(y)
    /\ QNonNegative(x) = QNonNegative(y) /\ QNonPositive(x) = QNonPositive(y)

\* C09
RoundLaws ==
  DefX =>
    /\ IsTrunc(RTrunc(x), x) /\ IsFloor(RFloor(x), x)
    /\ IsCeil(RCeil(x), x) /\ IsRound(RRound(x), x)
    /\ \A k \in -Comp..Comp : /\ IsTrunc(k, x) => k = RTrunc(x)
                              /\ IsFloor(k, x) => k = RFloor(x)
                              /\ IsCeil(k, x) => k = RCeil(x)
                              /\ IsRound(k, x) => k = RRound(x)
\* the algorithms round rightly with the components themselves as the word
AlgRounds ==
  DefX =>
    \A m \in Modes :
      LET a == CASE m = "trunc" -> AlgTrunc(x) [] m = "ceil" -> AlgCeil(x)
                 [] m = "floor" -> AlgFloor(x) [] m = "round" -> AlgRound(x)
      IN a.out = Round(x, m) /\ AllFit(a.mid, -Comp, Comp)

\* C10: y[1] is the new denominator
RedenomLaws ==
  (step = "two" /\ Defined(x) /\ y[1] # 0) =>
    LET d == y[1]
        unit == <<1, NAbs(d)>>
        w(m) == Redenom(x, d, m)
        err(m) == RSub(x, w(m))
    IN /\ \A m \in Modes : w(m)[2] = d /\ RLt(RAbs(err(m)), unit)
       /\ RLe(RAbs(w("trunc")), RAbs(x))
       /\ RSgn(err("floor")) >= 0 /\ RSgn(err("ceil")) <= 0
       /\ RLe(RAbs(err("round")), RMul(unit, <<1, 2>>))
       /\ REq(RAbs(err("round")), RMul(unit, <<1, 2>>))
          => \A k \in -Word..Word : Same(RAbs(RSub(x, <<k, d>>)), RAbs(err("round")))
                                   => k <= w("round")[1]
       /\ (\E k \in -Word..Word : Same(<<k, d>>, x)) => \A m \in Modes : Same(w(m), x)
RedenomUndefined ==
  (step = "two" /\ ~Defined(x)) => \A m \in Modes : ~Defined(Redenom(x, y[1], m))

\* C11: x[1] to the power x[2]
PowLaws ==
  One =>
    /\ x[2] >= 0 => /\ AlgPow(x[1], x[2]).out = NPow(x[1], x[2])
                    /\ \A v \in DOMAIN AlgPow(x[1], x[2]).mid :
                         NLe(NAbs(AlgPow(x[1], x[2]).mid[v]), NAbs(NPow(x[1], x[2])))
    /\ (x[1] # 0) => Same(RMul(Pow(x[1], x[2]), Pow(x[1], -x[2])), <<1, 1>>)
    /\ (x[1] = 0 /\ x[2] < 0) => ~Defined(Pow(x[1], x[2]))
    /\ Pow(x[1], x[2]) = PowValue(x[1], x[2])
PowAdds ==
  (step = "two" /\ x[2] >= 0 /\ y[2] >= 0) =>
    Same(Pow(x[1], x[2] + y[2]), RMul(Pow(x[1], x[2]), Pow(x[1], y[2])))

\* C15, C16 on a binary format of 3 bits precision and 3 exponent bits:
\* every bit pattern is decoded to a value from which, rounded to the nearest,
\* the same number comes back.
Tiny == Format(3, 3)
FloatLaws ==
  One =>
    \A b \in 0..63 :
      FloatFinite(b, Tiny) =>
        LET v == FloatValue(b, Tiny)
            r == Reduce(v)
        IN /\ Canonical(r)
           /\ ExactIn(r[1], 3)
           /\ (b < 32 /\ b > 3) => RLt(FloatValue(b - 1, Tiny), v)
           /\ (b >= 32) => Same(v, RNeg(FloatValue(b - 32, Tiny)))
\* every value has one or two nearest numbers of 3 bits, and none of them is
\* further than half a unit
NearestExists ==
  (DefX /\ RSgn(x) > 0) =>
    LET c == {me \in (4..7) \X (-8..4) : IsNearest(me[1], me[2], x, 3)}
    IN /\ Cardinality(c) \in 1..2
       /\ \A me \in c : IsClose(me[1], me[2], x, 3, 1)
       /\ \A me \in c, o \in (4..7) \X (-8..4) :
            RLe(RAbs(RSub(Scaled(me[1], me[2]), x)), RAbs(RSub(Scaled(o[1], o[2]), x)))
=============================================================================
