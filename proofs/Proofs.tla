------------------------------- MODULE Proofs -------------------------------
(***************************************************************************)
(* What TLC checks of Policy.tla and Frac.tla on a finite range, proved    *)
(* for all integers (checked by tlapm).                                    *)
(*                                                                         *)
(*   Policies, PolicyComparisons  every policy, operator and form computes *)
(*                                what the operator means, in the promised *)
(*                                form                    (C01, C04, C05)  *)
(*   Respects, CmpRespects        a result depends on the operands' values *)
(*                                only                                     *)
(*   Remainders                   the remainder by its laws          (C02) *)
(*   Modes, Reducing              reduction keeps the value and ends in    *)
(*                                lowest terms                  (C05, C07) *)
(*   Truncations, Floors, ...     the roundings by their laws        (C08) *)
(*   Euclid                       the recursion in Num.tla is the greatest *)
(*                                common divisor                           *)
(*                                                                         *)
(* tlapm does not accept recursive operators.  The check that runs it      *)
(* replaces the two of Num.tla in its copy: NGcd by the greatest common    *)
(* divisor (theorem Euclid is what justifies that), NPow, which nothing    *)
(* here uses, by anything.                                                 *)
(***************************************************************************)
EXTENDS Policy, NaturalsInduction, TLAPS

(************************ greatest common divisors *************************)
LEMMA DivisorBound ==
  ASSUME NEW a \in Int, a # 0, NEW h \in Nat, Divides(h, a)
  PROVE  h > 0 /\ h <= NAbs(a)
<1>1. PICK k \in Int : a = h * k BY DEF Divides
<1>2. h # 0 /\ k # 0 BY <1>1
<1>3. CASE k >= 1
  <2>1. h * k >= h BY <1>3, <1>2
  <2> QED BY <2>1, <1>1, <1>2 DEF NAbs
<1>4. CASE k <= -1
  <2>1. h * (-k) >= h BY <1>4, <1>2
  <2>2. h * (-k) = -(h * k) OBVIOUS
  <2> QED BY <2>1, <2>2, <1>1, <1>2 DEF NAbs
<1> QED BY <1>2, <1>3, <1>4

LEMMA GcdFacts ==
  ASSUME NEW a \in Int, NEW b \in Int, a # 0 \/ b # 0
  PROVE  /\ NGcd(a, b) \in Nat /\ NGcd(a, b) > 0
         /\ Divides(NGcd(a, b), a) /\ Divides(NGcd(a, b), b)
         /\ \A h \in Nat : Divides(h, a) /\ Divides(h, b) => h <= NGcd(a, b)
<1> DEFINE C(h) == Divides(h, a) /\ Divides(h, b)
<1> DEFINE B == IF a # 0 THEN NAbs(a) ELSE NAbs(b)
<1>1. B \in Nat BY DEF NAbs
<1>2. \A h \in Nat : C(h) => h <= B BY DivisorBound
<1>3. C(1) BY DEF Divides
<1> DEFINE P(m) == m <= B /\ C(B - m)
<1>4. P(B - 1) /\ B - 1 \in Nat
  <2>1. 1 <= B BY <1>2, <1>3
  <2>2. B - (B - 1) = 1 BY <1>1
  <2> QED BY <2>1, <2>2, <1>3, <1>1
<1> HIDE DEF P
<1>5. PICK m \in Nat : P(m) /\ \A k \in 0..m-1 : ~P(k)
  BY <1>4, SmallestNatural, Isa
<1> DEFINE g == B - m
<1>6. g \in Nat /\ C(g) BY <1>5, <1>1 DEF P
<1>7. \A h \in Nat : C(h) => h <= g
  <2> SUFFICES ASSUME NEW h \in Nat, C(h), h > g PROVE FALSE BY <1>6
  <2>1. h <= B BY <1>2
  <2>2. B - h \in 0..m-1 BY <2>1, <1>1
  <2>3. P(B - h)
    <3>1. B - (B - h) = h BY <1>1
    <3> QED BY <3>1, <2>2, <1>1 DEF P
  <2> QED BY <2>2, <2>3, <1>5
<1>8. \E x \in Nat : /\ Divides(x, a) /\ Divides(x, b)
                     /\ \A h \in Nat : Divides(h, a) /\ Divides(h, b) => h <= x
  BY <1>6, <1>7
<1>9. /\ NGcd(a, b) \in Nat /\ Divides(NGcd(a, b), a) /\ Divides(NGcd(a, b), b)
      /\ \A h \in Nat : Divides(h, a) /\ Divides(h, b) => h <= NGcd(a, b)
  BY <1>8 DEF NGcd
<1>10. NGcd(a, b) > 0 BY <1>9, DivisorBound
<1> QED BY <1>9, <1>10

(****************************** divisions **********************************)
LEMMA QuotNat == ASSUME NEW m \in Nat, NEW b \in Nat, b > 0 PROVE (m * b) \div b = m
  OBVIOUS

LEMMA AbsSgn == \A a \in Int : NAbs(a) \in Nat /\ NSgn(a) \in {-1, 0, 1} /\ NSgn(a) * NAbs(a) = a
                               /\ (a # 0 => NAbs(a) > 0)
  BY DEF NAbs, NSgn

\* A quotient without remainder.
LEMMA QuotExact ==
  ASSUME NEW m \in Int, NEW b \in Int, b # 0
  PROVE  NQuot(m * b, b) = m
<1>1. NAbs(m * b) = NAbs(m) * NAbs(b)
  <2>1. CASE m >= 0 /\ b > 0 BY <2>1 DEF NAbs
  <2>2. CASE m >= 0 /\ b < 0
    <3>1. m * b <= 0 BY <2>2
    <3> QED BY <2>2, <3>1 DEF NAbs
  <2>3. CASE m < 0 /\ b > 0
    <3>1. m * b < 0 BY <2>3
    <3> QED BY <2>3, <3>1 DEF NAbs
  <2>4. CASE m < 0 /\ b < 0
    <3>1. m * b > 0 BY <2>4
    <3> QED BY <2>4, <3>1 DEF NAbs
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1>2. NSgn(m * b) * NSgn(b) = NSgn(m)
  <2>1. CASE m = 0 BY <2>1 DEF NSgn
  <2>2. CASE m > 0 /\ b > 0
    <3>1. m * b > 0 BY <2>2
    <3> QED BY <2>2, <3>1 DEF NSgn
  <2>3. CASE m > 0 /\ b < 0
    <3>1. m * b < 0 BY <2>3
    <3> QED BY <2>3, <3>1 DEF NSgn
  <2>4. CASE m < 0 /\ b > 0
    <3>1. m * b < 0 BY <2>4
    <3> QED BY <2>4, <3>1 DEF NSgn
  <2>5. CASE m < 0 /\ b < 0
    <3>1. m * b > 0 BY <2>5
    <3> QED BY <2>5, <3>1 DEF NSgn
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5
<1>3. (NAbs(m) * NAbs(b)) \div NAbs(b) = NAbs(m) BY QuotNat, AbsSgn
<1>4. NQuot(m * b, b) = NSgn(m) * NAbs(m)
  BY <1>1, <1>2, <1>3 DEF NQuot
<1> QED BY <1>4, AbsSgn

\* The least common multiple is positive and a multiple of both.
LEMMA LcmFacts ==
  ASSUME NEW a \in Int, NEW b \in Int, a # 0, b # 0
  PROVE  Lcm(a, b) \in Int /\ Lcm(a, b) > 0
         /\ \E p, q \in Int : Lcm(a, b) = p * a /\ Lcm(a, b) = q * b
<1> DEFINE g == NGcd(a, b)
<1>1. g \in Nat /\ g > 0 /\ Divides(g, a) /\ Divides(g, b) BY GcdFacts
<1>2. PICK i \in Int : a = g * i BY <1>1 DEF Divides
<1>3. PICK j \in Int : b = g * j BY <1>1 DEF Divides
<1> HIDE DEF g
<1> DEFINE A == NAbs(a)
<1> DEFINE J == NAbs(j)
<1> DEFINE I == NAbs(i)
<1>a. A = g * I
  <2>1. CASE i >= 0 BY <2>1, <1>1, <1>2 DEF NAbs
  <2>2. CASE i < 0
    <3>1. g * i < 0 BY <2>2, <1>1
    <3>2. g * (-i) = -(g * i) BY <1>1
    <3> QED BY <2>2, <3>1, <3>2, <1>1, <1>2 DEF NAbs
  <2> QED BY <2>1, <2>2
<1>b. NAbs(b) = g * J
  <2>1. CASE j >= 0 BY <2>1, <1>1, <1>3 DEF NAbs
  <2>2. CASE j < 0
    <3>1. g * j < 0 BY <2>2, <1>1
    <3>2. g * (-j) = -(g * j) BY <1>1
    <3> QED BY <2>2, <3>1, <3>2, <1>1, <1>3 DEF NAbs
  <2> QED BY <2>1, <2>2
<1>4. A \in Nat /\ I \in Nat /\ J \in Nat /\ A > 0 /\ NAbs(b) > 0 BY AbsSgn, <1>2, <1>3
<1> HIDE DEF A, I, J
<1>5. A * NAbs(b) = (A * J) * g BY <1>b, <1>1, <1>4
<1>6. Lcm(a, b) = A * J
  <2>1. NQuot((A * J) * g, g) = A * J BY QuotExact, <1>1, <1>4
  <2> QED BY <2>1, <1>5 DEF Lcm, NMul, A, g
<1>7. J > 0 BY <1>b, <1>4, <1>1
<1>8. A * J > 0 BY <1>4, <1>7
<1>9. \E p \in Int : A * J = p * a
  <2>1. CASE a > 0
    <3>1. A = a BY <2>1 DEF A, NAbs
    <3> QED BY <3>1, <1>4
  <2>2. CASE a < 0
    <3>1. A = -a BY <2>2 DEF A, NAbs
    <3>2. A * J = (-J) * a BY <3>1, <1>4
    <3> QED BY <3>2, <1>4
  <2> QED BY <2>1, <2>2
<1>10. \E q \in Int : A * J = q * b
  <2>1. A * J = I * NAbs(b) BY <1>a, <1>b, <1>1, <1>4
  <2>2. CASE b > 0
    <3>1. NAbs(b) = b BY <2>2 DEF NAbs
    <3> QED BY <3>1, <2>1, <1>4
  <2>3. CASE b < 0
    <3>1. NAbs(b) = -b BY <2>3 DEF NAbs
    <3>2. A * J = (-I) * b BY <3>1, <2>1, <1>4
    <3> QED BY <3>2, <1>4
  <2> QED BY <2>2, <2>3
<1> QED BY <1>6, <1>8, <1>9, <1>10, <1>4

LEMMA Scaled ==
  ASSUME NEW k \in Int, NEW n \in Int, NEW d \in Int, NEW p \in Int, d # 0, k = p * d
  PROVE  Scale(k, <<n, d>>) = p * n
  BY QuotExact DEF Scale, NMul

LEMMA DefinedPair == \A n, d \in Int : Defined(<<n, d>>) <=> d # 0
  BY DEF Defined, NSgn

LEMMA ProductZero == \A x, y \in Int : x * y = 0 <=> x = 0 \/ y = 0
  OBVIOUS

(****************************** C01: arithmetic ****************************)
THEOREM SafeSums ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in {"plus", "minus"}
  PROVE  Same(SafeFF(op, <<n1, d1>>, <<n2, d2>>).out, Meaning(op, <<n1, d1>>, <<n2, d2>>))
<1>1. CASE d1 = 0 \/ d2 = 0
  BY <1>1, DefinedPair DEF SafeFF, Meaning, Same, Undefined, Res
<1>2. CASE d1 # 0 /\ d2 # 0
  <2> DEFINE k == Lcm(d1, d2)
  <2>1. PICK p, q \in Int : k = p * d1 /\ k = q * d2 BY <1>2, LcmFacts
  <2>2. k \in Int /\ k > 0 BY <1>2, LcmFacts
  <2> HIDE DEF k
  <2>3. Scale(k, <<n1, d1>>) = p * n1 /\ Scale(k, <<n2, d2>>) = q * n2
    BY <2>1, <2>2, <1>2, Scaled
  <2>4. (p * n1) * (d1 * d2) = (n1 * d2) * k BY <2>1
  <2>5. (q * n2) * (d1 * d2) = (n2 * d1) * k BY <2>1
  <2>6. d1 * d2 # 0 BY <1>2
  <2>7. CASE op = "plus"
    <3>1. SafeFF(op, <<n1, d1>>, <<n2, d2>>).out = <<p * n1 + q * n2, k>>
      BY <2>7, <2>3, <1>2, DefinedPair DEF SafeFF, Res, NAdd, k
    <3>2. Meaning(op, <<n1, d1>>, <<n2, d2>>) = <<n1 * d2 + n2 * d1, d1 * d2>>
      BY <2>7, <1>2, DefinedPair DEF Meaning, RAdd, NAdd, NMul
    <3>3. (p * n1 + q * n2) * (d1 * d2) = (n1 * d2 + n2 * d1) * k
      BY <2>4, <2>5, <2>2
    <3> QED BY <3>1, <3>2, <3>3, <2>2, <2>6, DefinedPair DEF Same, REq, NEq, NMul
  <2>8. CASE op = "minus"
    <3>1. SafeFF(op, <<n1, d1>>, <<n2, d2>>).out = <<p * n1 - q * n2, k>>
      BY <2>8, <2>3, <1>2, DefinedPair DEF SafeFF, Res, NSub, k
    <3>2. Meaning(op, <<n1, d1>>, <<n2, d2>>) = <<n1 * d2 - n2 * d1, d1 * d2>>
      BY <2>8, <1>2, DefinedPair DEF Meaning, RSub, NSub, NMul
    <3>3. (p * n1 - q * n2) * (d1 * d2) = (n1 * d2 - n2 * d1) * k
      BY <2>4, <2>5, <2>2
    <3> QED BY <3>1, <3>2, <3>3, <2>2, <2>6, DefinedPair DEF Same, REq, NEq, NMul
  <2> QED BY <2>7, <2>8
<1> QED BY <1>1, <1>2

LEMMA SgnZero == \A x \in Int : NSgn(x) = 0 <=> x = 0
  BY DEF NSgn

LEMMA RSgnZero == \A n, d \in Int : RSgn(<<n, d>>) = 0 <=> n = 0 \/ d = 0
  BY SgnZero, ProductZero, AbsSgn DEF RSgn

THEOREM Products ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in {"times", "divides"}
  PROVE  Same(SafeFF(op, <<n1, d1>>, <<n2, d2>>).out, Meaning(op, <<n1, d1>>, <<n2, d2>>))
<1> DEFINE a == <<n1, d1>>
<1> DEFINE b == <<n2, d2>>
<1>1. CASE op = "times"
  <2>1. SafeFF(op, a, b).out = <<n1 * n2, d1 * d2>> BY <1>1 DEF SafeFF, Res, NMul
  <2>2. CASE d1 # 0 /\ d2 # 0
    <3>1. Meaning(op, a, b) = <<n1 * n2, d1 * d2>>
      BY <1>1, <2>2, DefinedPair DEF Meaning, RMul, NMul
    <3> QED BY <2>1, <3>1, <2>2, DefinedPair DEF Same, REq, NEq, NMul
  <2>3. CASE ~(d1 # 0 /\ d2 # 0)
    <3>1. Meaning(op, a, b) = Undefined BY <2>3, DefinedPair DEF Meaning
    <3>2. d1 * d2 = 0 BY <2>3
    <3> QED BY <2>1, <3>1, <3>2, DefinedPair DEF Same, Undefined
  <2> QED BY <2>2, <2>3
<1>2. CASE op = "divides"
  <2>1. CASE d2 = 0
    BY <2>1, <1>2, DefinedPair DEF SafeFF, Meaning, Same, Undefined, Res
  <2>2. CASE d2 # 0
    <3>1. SafeFF(op, a, b).out = <<n1 * d2, d1 * n2>>
      BY <1>2, <2>2, DefinedPair DEF SafeFF, Res, NMul
    <3>2. CASE d1 # 0 /\ n2 # 0
      <4>1. Meaning(op, a, b) = <<n1 * d2, d1 * n2>>
        BY <1>2, <2>2, <3>2, DefinedPair, RSgnZero DEF Meaning, RDiv, NMul
      <4> QED BY <3>1, <4>1, <3>2, DefinedPair DEF Same, REq, NEq, NMul
    <3>3. CASE ~(d1 # 0 /\ n2 # 0)
      <4>1. Meaning(op, a, b) = Undefined BY <1>2, <3>3, DefinedPair, RSgnZero DEF Meaning
      <4>2. d1 * n2 = 0 BY <3>3
      <4> QED BY <3>1, <4>1, <4>2, DefinedPair DEF Same, Undefined
    <3> QED BY <3>2, <3>3
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2

THEOREM FastSums ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in {"plus", "minus"}
  PROVE  Same(FastFF(op, <<n1, d1>>, <<n2, d2>>).out, Meaning(op, <<n1, d1>>, <<n2, d2>>))
<1>1. CASE d1 # 0 /\ d2 # 0
  <2>1. FastFF(op, <<n1, d1>>, <<n2, d2>>).out = Meaning(op, <<n1, d1>>, <<n2, d2>>)
    BY <1>1, DefinedPair DEF FastFF, Meaning, RAdd, RSub, NAdd, NSub, NMul, Res
  <2>2. d1 * d2 # 0 BY <1>1
  <2>3. \E n \in Int : Meaning(op, <<n1, d1>>, <<n2, d2>>) = <<n, d1 * d2>>
    BY <1>1, DefinedPair DEF Meaning, RAdd, RSub, NAdd, NSub, NMul
  <2> QED BY <2>1, <2>2, <2>3, DefinedPair DEF Same, REq, NEq, NMul
<1>2. CASE ~(d1 # 0 /\ d2 # 0)
  <2>1. Meaning(op, <<n1, d1>>, <<n2, d2>>) = Undefined BY <1>2, DefinedPair DEF Meaning
  <2>2. d1 * d2 = 0 BY <1>2
  <2>3. \E n \in Int : FastFF(op, <<n1, d1>>, <<n2, d2>>).out = <<n, d1 * d2>>
    <3>1. CASE op = "plus"
      <4>1. FastFF(op, <<n1, d1>>, <<n2, d2>>).out = <<n1 * d2 + n2 * d1, d1 * d2>>
        BY <3>1 DEF FastFF, NAdd, NSub, NMul, Res
      <4> QED BY <4>1
    <3>2. CASE op = "minus"
      <4>1. FastFF(op, <<n1, d1>>, <<n2, d2>>).out = <<n1 * d2 - n2 * d1, d1 * d2>>
        BY <3>2 DEF FastFF, NAdd, NSub, NMul, Res
      <4> QED BY <4>1
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2, <2>3, DefinedPair DEF Same, Undefined
<1> QED BY <1>1, <1>2

THEOREM WithInteger ==
  ASSUME NEW n \in Int, NEW d \in Int, NEW i \in Int, NEW op \in {"plus", "minus", "times", "divides"}
  PROVE  Same(BaseFR(op, <<n, d>>, i).out, Meaning(op, <<n, d>>, <<i, 1>>))
<1>1. CASE op = "plus"
  <2>1. BaseFR(op, <<n, d>>, i).out = <<n + i * d, d>> BY <1>1 DEF BaseFR, NAdd, NMul, Res
  <2>2. d # 0 => Meaning(op, <<n, d>>, <<i, 1>>) = <<n * 1 + i * d, d * 1>>
    BY <1>1, DefinedPair DEF Meaning, RAdd, NAdd, NMul
  <2>3. d = 0 => Meaning(op, <<n, d>>, <<i, 1>>) = <<0, 0>> BY DefinedPair DEF Meaning, Undefined
  <2> QED BY <2>1, <2>2, <2>3, DefinedPair DEF Same, REq, NEq, NMul
<1>2. CASE op = "minus"
  <2>1. BaseFR(op, <<n, d>>, i).out = <<n - i * d, d>> BY <1>2 DEF BaseFR, NSub, NMul, Res
  <2>2. d # 0 => Meaning(op, <<n, d>>, <<i, 1>>) = <<n * 1 - i * d, d * 1>>
    BY <1>2, DefinedPair DEF Meaning, RSub, NSub, NMul
  <2>3. d = 0 => Meaning(op, <<n, d>>, <<i, 1>>) = <<0, 0>> BY DefinedPair DEF Meaning, Undefined
  <2> QED BY <2>1, <2>2, <2>3, DefinedPair DEF Same, REq, NEq, NMul
<1>3. CASE op = "times"
  <2>1. BaseFR(op, <<n, d>>, i).out = <<n * i, d>> BY <1>3 DEF BaseFR, NMul, Res
  <2>2. d # 0 => Meaning(op, <<n, d>>, <<i, 1>>) = <<n * i, d * 1>>
    BY <1>3, DefinedPair DEF Meaning, RMul, NMul
  <2>3. d = 0 => Meaning(op, <<n, d>>, <<i, 1>>) = <<0, 0>> BY DefinedPair DEF Meaning, Undefined
  <2> QED BY <2>1, <2>2, <2>3, DefinedPair DEF Same, REq, NEq, NMul
<1>4. CASE op = "divides"
  <2>1. BaseFR(op, <<n, d>>, i).out = <<n, d * i>> BY <1>4 DEF BaseFR, NMul, Res
  <2>2. d # 0 /\ i # 0 => Meaning(op, <<n, d>>, <<i, 1>>) = <<n * 1, d * i>>
    BY <1>4, DefinedPair, RSgnZero DEF Meaning, RDiv, NMul
  <2>3. d = 0 \/ i = 0 => Meaning(op, <<n, d>>, <<i, 1>>) = <<0, 0>>
    BY <1>4, DefinedPair, RSgnZero DEF Meaning, Undefined
  <2> QED BY <2>1, <2>2, <2>3, DefinedPair, ProductZero DEF Same, REq, NEq, NMul
<1> QED BY <1>1, <1>2, <1>3, <1>4

THEOREM IntegerWith ==
  ASSUME NEW n \in Int, NEW d \in Int, NEW i \in Int, NEW op \in {"plus", "minus", "times", "divides"}
  PROVE  Same(BaseRF(op, i, <<n, d>>).out, Meaning(op, <<i, 1>>, <<n, d>>))
<1>1. CASE op = "plus"
  <2>1. BaseRF(op, i, <<n, d>>).out = <<n + i * d, d>> BY <1>1 DEF BaseRF, BaseFR, NAdd, NMul, Res
  <2>2. d # 0 => Meaning(op, <<i, 1>>, <<n, d>>) = <<i * d + n * 1, 1 * d>>
    BY <1>1, DefinedPair DEF Meaning, RAdd, NAdd, NMul
  <2>3. d = 0 => Meaning(op, <<i, 1>>, <<n, d>>) = <<0, 0>> BY DefinedPair DEF Meaning, Undefined
  <2> QED BY <2>1, <2>2, <2>3, DefinedPair DEF Same, REq, NEq, NMul
<1>2. CASE op = "minus"
  <2>1. BaseRF(op, i, <<n, d>>).out = <<i * d - n, d>> BY <1>2 DEF BaseRF, NSub, NMul, Res
  <2>2. d # 0 => Meaning(op, <<i, 1>>, <<n, d>>) = <<i * d - n * 1, 1 * d>>
    BY <1>2, DefinedPair DEF Meaning, RSub, NSub, NMul
  <2>3. d = 0 => Meaning(op, <<i, 1>>, <<n, d>>) = <<0, 0>> BY DefinedPair DEF Meaning, Undefined
  <2> QED BY <2>1, <2>2, <2>3, DefinedPair DEF Same, REq, NEq, NMul
<1>3. CASE op = "times"
  <2>1. BaseRF(op, i, <<n, d>>).out = <<n * i, d>> BY <1>3 DEF BaseRF, BaseFR, NMul, Res
  <2>2. d # 0 => Meaning(op, <<i, 1>>, <<n, d>>) = <<i * n, 1 * d>>
    BY <1>3, DefinedPair DEF Meaning, RMul, NMul
  <2>3. d = 0 => Meaning(op, <<i, 1>>, <<n, d>>) = <<0, 0>> BY DefinedPair DEF Meaning, Undefined
  <2> QED BY <2>1, <2>2, <2>3, DefinedPair DEF Same, REq, NEq, NMul
<1>4. CASE op = "divides"
  <2>1. d # 0 => BaseRF(op, i, <<n, d>>).out = <<i * d, n>>
    BY <1>4, DefinedPair DEF BaseRF, NMul, Res
  <2>2. d = 0 => BaseRF(op, i, <<n, d>>).out = <<0, 0>>
    BY <1>4, DefinedPair DEF BaseRF, Undefined, Res
  <2>3. d # 0 /\ n # 0 => Meaning(op, <<i, 1>>, <<n, d>>) = <<i * d, 1 * n>>
    BY <1>4, DefinedPair, RSgnZero DEF Meaning, RDiv, NMul
  <2>4. d = 0 \/ n = 0 => Meaning(op, <<i, 1>>, <<n, d>>) = <<0, 0>>
    BY <1>4, DefinedPair, RSgnZero DEF Meaning, Undefined
  <2> QED BY <2>1, <2>2, <2>3, <2>4, DefinedPair DEF Same, REq, NEq, NMul
<1> QED BY <1>1, <1>2, <1>3, <1>4

(****************************** C04: comparisons ***************************)
LEMMA SgnOfProduct ==
  \A x, y \in Int : /\ NSgn(x) * NSgn(y) \in Int
                    /\ (NSgn(x) * NSgn(y) < 0 <=> x * y < 0)
                    /\ (NSgn(x) * NSgn(y) = 0 <=> x * y = 0)
                    /\ (NSgn(x) * NSgn(y) > 0 <=> x * y > 0)
<1> SUFFICES ASSUME NEW x \in Int, NEW y \in Int
             PROVE  /\ NSgn(x) * NSgn(y) \in Int
                    /\ (NSgn(x) * NSgn(y) < 0 <=> x * y < 0)
                    /\ (NSgn(x) * NSgn(y) = 0 <=> x * y = 0)
                    /\ (NSgn(x) * NSgn(y) > 0 <=> x * y > 0)
  OBVIOUS
<1>1. CASE x = 0 \/ y = 0 BY <1>1 DEF NSgn
<1>2. CASE x > 0 /\ y > 0
  <2>1. x * y > 0 BY <1>2
  <2> QED BY <2>1, <1>2 DEF NSgn
<1>3. CASE x > 0 /\ y < 0
  <2>1. x * y < 0 BY <1>3
  <2> QED BY <2>1, <1>3 DEF NSgn
<1>4. CASE x < 0 /\ y > 0
  <2>1. x * y < 0 BY <1>4
  <2> QED BY <2>1, <1>4 DEF NSgn
<1>5. CASE x < 0 /\ y < 0
  <2>1. x * y > 0 BY <1>5
  <2> QED BY <2>1, <1>5 DEF NSgn
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5

\* The sign of a difference, by cross products.
LEMMA SignOfDifference ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int, d1 # 0, d2 # 0
  PROVE  LET s == RSgn(RSub(<<n1, d1>>, <<n2, d2>>))
             e == n1 * d2 - n2 * d1
             f == d1 * d2
         IN /\ s = 0 <=> e = 0
            /\ s < 0 <=> e * f < 0
            /\ s > 0 <=> e * f > 0
            /\ s \in Int
<1>1. RSub(<<n1, d1>>, <<n2, d2>>) = <<n1 * d2 - n2 * d1, d1 * d2>> BY DEF RSub, NSub, NMul
<1>2. d1 * d2 # 0 BY ProductZero
<1> DEFINE e == n1 * d2 - n2 * d1
<1> DEFINE f == d1 * d2
<1>3. e \in Int /\ f \in Int OBVIOUS
<1>4. RSgn(RSub(<<n1, d1>>, <<n2, d2>>)) = NSgn(e) * NSgn(f) BY <1>1 DEF RSgn
<1> HIDE DEF e, f
<1>5. f # 0 BY <1>2 DEF f
<1>6. e * f = 0 <=> e = 0 BY <1>3, <1>5, ProductZero
<1> QED BY <1>3, <1>4, <1>6, SgnOfProduct DEF e, f

THEOREM CrossComparisons ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in {"eq", "lt", "le"}, NEW form \in Forms, NEW base \in {"safe", "fast"},
         ~(base = "safe" /\ form = "FF")
  PROVE  BaseCmp(base, op, form, <<n1, d1>>, <<n2, d2>>).out
         = CmpMeaning(op, <<n1, d1>>, <<n2, d2>>)
<1> DEFINE a == <<n1, d1>>
<1> DEFINE b == <<n2, d2>>
<1>1. CASE d1 = 0 \/ d2 = 0 BY <1>1, DefinedPair DEF BaseCmp, CmpMeaning, Res
<1>2. CASE d1 # 0 /\ d2 # 0
  <2> DEFINE x == n1 * d2
  <2> DEFINE y == n2 * d1
  <2> DEFINE f == d1 * d2
  <2> DEFINE s == RSgn(RSub(a, b))
  <2>1. x \in Int /\ y \in Int /\ f \in Int OBVIOUS
  <2>2. NSgn(d1) * NSgn(d2) < 0 <=> f < 0 BY SgnOfProduct
  <2>3. BaseCmp(base, op, form, a, b).out
        = IF op = "eq" THEN x = y ELSE FlipIf(NSgn(d1) * NSgn(d2) < 0, x, y, op = "lt")
    BY <1>2, DefinedPair DEF BaseCmp, Res, NMul, NEq
  <2>4. CmpMeaning(op, a, b) = CASE op = "eq" -> s = 0 [] op = "lt" -> s < 0 [] op = "le" -> s <= 0
    BY <1>2, DefinedPair DEF CmpMeaning
  <2>5. (s = 0 <=> x - y = 0) /\ (s < 0 <=> (x - y) * f < 0) /\ s \in Int
    BY <1>2, SignOfDifference
  <2>6. f # 0 BY <1>2, ProductZero
  <2> HIDE DEF x, y, f, s
  <2>7. CASE f > 0
    <3>1. (x - y) * f < 0 <=> x - y < 0 BY <2>7, <2>1
    <3> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>7, <3>1 DEF FlipIf, NLt, NLe
  <2>8. CASE f < 0
    <3>1. (x - y) * f < 0 <=> x - y > 0 BY <2>8, <2>1
    <3> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>8, <3>1 DEF FlipIf, NLt, NLe
  <2> QED BY <2>6, <2>7, <2>8, <2>1
<1> QED BY <1>1, <1>2

THEOREM SafeComparisons ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in {"eq", "lt", "le"}
  PROVE  BaseCmp("safe", op, "FF", <<n1, d1>>, <<n2, d2>>).out
         = CmpMeaning(op, <<n1, d1>>, <<n2, d2>>)
<1> DEFINE a == <<n1, d1>>
<1> DEFINE b == <<n2, d2>>
<1>1. CASE d1 = 0 \/ d2 = 0 BY <1>1, DefinedPair DEF BaseCmp, CmpMeaning, Res
<1>2. CASE d1 # 0 /\ d2 # 0
  <2> DEFINE k == Lcm(d1, d2)
  <2>1. PICK p, q \in Int : k = p * d1 /\ k = q * d2 BY <1>2, LcmFacts
  <2>2. k \in Int /\ k > 0 BY <1>2, LcmFacts
  <2> HIDE DEF k
  <2>3. Scale(k, a) = p * n1 /\ Scale(k, b) = q * n2 BY <2>1, <2>2, <1>2, Scaled
  <2> DEFINE x == p * n1
  <2> DEFINE y == q * n2
  <2> DEFINE e == n1 * d2 - n2 * d1
  <2> DEFINE f == d1 * d2
  <2> DEFINE s == RSgn(RSub(a, b))
  <2>4. x \in Int /\ y \in Int /\ e \in Int /\ f \in Int OBVIOUS
  <2>5. x * f = (n1 * d2) * k BY <2>1
  <2>6. y * f = (n2 * d1) * k BY <2>1
  <2>7. (x - y) * f = e * k BY <2>5, <2>6, <2>2
  <2>8. f # 0 BY <1>2, ProductZero
  <2>9. (s = 0 <=> e = 0) /\ (s < 0 <=> e * f < 0) /\ s \in Int BY <1>2, SignOfDifference
  <2>10. BaseCmp("safe", op, "FF", a, b).out
         = IF op = "eq" THEN x = y ELSE FlipIf(FALSE, x, y, op = "lt")
    BY <1>2, <2>3, DefinedPair DEF BaseCmp, Res, NEq, k
  <2>11. CmpMeaning(op, a, b) = CASE op = "eq" -> s = 0 [] op = "lt" -> s < 0 [] op = "le" -> s <= 0
    BY <1>2, DefinedPair DEF CmpMeaning
  <2> HIDE DEF x, y, e, f, s
  <2>12. x - y = 0 <=> e = 0
    <3>1. (x - y) * f = 0 <=> x - y = 0 BY <2>4, <2>8, ProductZero
    <3>2. e * k = 0 <=> e = 0 BY <2>4, <2>2, ProductZero
    <3> QED BY <3>1, <3>2, <2>7
  <2>13. x - y < 0 <=> e * f < 0
    <3>1. CASE f > 0
      <4>1. (x - y) * f < 0 <=> x - y < 0 BY <3>1, <2>4
      <4>2. e * k < 0 <=> e < 0 BY <2>2, <2>4
      <4>3. e * f < 0 <=> e < 0 BY <3>1, <2>4
      <4> QED BY <4>1, <4>2, <4>3, <2>7
    <3>2. CASE f < 0
      <4>1. (x - y) * f > 0 <=> x - y < 0 BY <3>2, <2>4
      <4>2. e * k > 0 <=> e > 0 BY <2>2, <2>4
      <4>3. e * f < 0 <=> e > 0 BY <3>2, <2>4
      <4> QED BY <4>1, <4>2, <4>3, <2>7
    <3> QED BY <3>1, <3>2, <2>4, <2>8
  <2> QED BY <2>4, <2>9, <2>10, <2>11, <2>12, <2>13 DEF FlipIf, NLt, NLe
<1> QED BY <1>1, <1>2

(****************************** C05, C07: forms ****************************)
LEMMA Signed == \A a, b \in Int : /\ NSgn(a) > 0 <=> a > 0
                                  /\ NSgn(a) < 0 <=> a < 0
                                  /\ NSgn(a) = 0 <=> a = 0
  BY DEF NSgn

THEOREM Reducing ==
  ASSUME NEW n \in Int, NEW d \in Int, d # 0
  PROVE  LET y == ReduceIgnoreSigns(<<n, d>>)
         IN \E i, j \in Int : /\ y = <<i, j>> /\ j # 0
                              /\ Same(y, <<n, d>>)
                              /\ LowestTerms(y)
                              /\ (d > 0 <=> j > 0)
<1> DEFINE g == NGcd(n, d)
<1>1. /\ g \in Nat /\ g > 0 /\ Divides(g, n) /\ Divides(g, d)
      /\ \A h \in Nat : Divides(h, n) /\ Divides(h, d) => h <= g
  BY GcdFacts
<1>2. PICK i \in Int : n = g * i BY <1>1 DEF Divides
<1>3. PICK j \in Int : d = g * j BY <1>1 DEF Divides
<1> HIDE DEF g
<1>4. NQuot(n, g) = i
  <2>1. n = i * g BY <1>1, <1>2
  <2> QED BY <2>1, <1>1, QuotExact
<1>5. NQuot(d, g) = j
  <2>1. d = j * g BY <1>1, <1>3
  <2> QED BY <2>1, <1>1, QuotExact
<1>6. ReduceIgnoreSigns(<<n, d>>) = <<i, j>>
  BY <1>4, <1>5, DefinedPair DEF ReduceIgnoreSigns, g
<1>7. j # 0 BY <1>3, <1>1
<1>8. Same(<<i, j>>, <<n, d>>)
  <2>1. i * d = n * j
    <3>1. i * d = i * (g * j) BY <1>3
    <3>2. n * j = (g * i) * j BY <1>2
    <3>3. i * (g * j) = (g * i) * j BY <1>1
    <3> QED BY <3>1, <3>2, <3>3
  <2> QED BY <2>1, <1>7, DefinedPair DEF Same, REq, NEq, NMul
<1>9. NGcd(i, j) = 1
  <2> DEFINE h == NGcd(i, j)
  <2>1. h \in Nat /\ h > 0 /\ Divides(h, i) /\ Divides(h, j) BY <1>7, GcdFacts
  <2>2. PICK u \in Int : i = h * u BY <2>1 DEF Divides
  <2>3. PICK v \in Int : j = h * v BY <2>1 DEF Divides
  <2> HIDE DEF h
  <2>4. n = (g * h) * u BY <2>2, <1>2, <2>1, <1>1
  <2>5. d = (g * h) * v BY <2>3, <1>3, <2>1, <1>1
  <2>6. g * h \in Nat BY <2>1, <1>1
  <2>7. g * h <= g BY <2>4, <2>5, <2>6, <1>1 DEF Divides
  <2>8. CASE h >= 2
    <3>1. g * h >= g * 2 BY <2>8, <1>1, <2>1
    <3> QED BY <3>1, <2>7, <1>1, <2>6
  <2> QED BY <2>1, <2>8 DEF h
<1>10. LowestTerms(<<i, j>>) BY <1>9, <1>7, DefinedPair DEF LowestTerms, NEq
<1>11. d > 0 <=> j > 0
  <2>1. CASE j > 0
    <3>1. g * j > 0 BY <2>1, <1>1
    <3> QED BY <3>1, <2>1, <1>3
  <2>2. CASE j < 0
    <3>1. g * j < 0 BY <2>2, <1>1
    <3> QED BY <3>1, <2>2, <1>3
  <2> QED BY <2>1, <2>2, <1>7
<1> QED BY <1>6, <1>7, <1>8, <1>10, <1>11

LEMMA DividesNeg == \A h, a \in Int : Divides(h, -a) <=> Divides(h, a)
<1> SUFFICES ASSUME NEW h \in Int, NEW a \in Int PROVE Divides(h, -a) <=> Divides(h, a)
  OBVIOUS
<1>1. ASSUME Divides(h, a) PROVE Divides(h, -a)
  <2>1. PICK k \in Int : a = h * k BY <1>1 DEF Divides
  <2>2. -a = h * (-k) BY <2>1
  <2> QED BY <2>2 DEF Divides
<1>2. ASSUME Divides(h, -a) PROVE Divides(h, a)
  <2>1. PICK k \in Int : -a = h * k BY <1>2 DEF Divides
  <2>2. a = h * (-k) BY <2>1
  <2> QED BY <2>2 DEF Divides
<1> QED BY <1>1, <1>2

LEMMA GcdNeg == \A a, b \in Int : NGcd(-a, -b) = NGcd(a, b)
<1> SUFFICES ASSUME NEW a \in Int, NEW b \in Int PROVE NGcd(-a, -b) = NGcd(a, b)
  OBVIOUS
<1>1. \A g \in Nat : /\ Divides(g, -a) <=> Divides(g, a)
                     /\ Divides(g, -b) <=> Divides(g, b)
  BY DividesNeg
<1> DEFINE P(g) == Divides(g, a) /\ Divides(g, b) /\ \A h \in Nat : Divides(h, a) /\ Divides(h, b) => h <= g
<1> DEFINE Q(g) == Divides(g, -a) /\ Divides(g, -b) /\ \A h \in Nat : Divides(h, -a) /\ Divides(h, -b) => h <= g
<1>2. \A g \in Nat : P(g) <=> Q(g) BY <1>1
<1>3. (CHOOSE g \in Nat : P(g)) = (CHOOSE g \in Nat : Q(g)) BY <1>2
<1> QED BY <1>3 DEF NGcd

LEMMA Normalizing ==
  ASSUME NEW n \in Int, NEW d \in Int, d # 0
  PROVE  LET y == NormalizeSigns(<<n, d>>)
         IN \E i, j \in Int : /\ y = <<i, j>> /\ j > 0
                              /\ Same(y, <<n, d>>)
                              /\ (LowestTerms(<<n, d>>) => LowestTerms(y))
<1>1. CASE d > 0
  <2>1. NormalizeSigns(<<n, d>>) = <<n, d>> BY <1>1, Signed DEF NormalizeSigns, NNorm
  <2>2. Same(<<n, d>>, <<n, d>>) BY DefinedPair DEF Same, REq, NEq, NMul
  <2> QED BY <1>1, <2>1, <2>2
<1>2. CASE d < 0
  <2>1. NormalizeSigns(<<n, d>>) = <<-n, -d>> BY <1>2, Signed DEF NormalizeSigns, NNeg
  <2>2. -n \in Int /\ -d \in Int /\ -d > 0 BY <1>2
  <2>3. Same(<<-n, -d>>, <<n, d>>)
    <3>1. (-n) * d = n * (-d) OBVIOUS
    <3> QED BY <3>1, <1>2, <2>2, DefinedPair DEF Same, REq, NEq, NMul
  <2>4. LowestTerms(<<n, d>>) => LowestTerms(<<-n, -d>>)
    BY GcdNeg, <1>2, <2>2, DefinedPair DEF LowestTerms, NEq
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1> QED BY <1>1, <1>2

\* Equality of values is an equivalence.
LEMMA SameTrans ==
  ASSUME NEW a \in Int \X Int, NEW b \in Int \X Int, NEW c \in Int \X Int,
         Same(a, b), Same(b, c)
  PROVE  Same(a, c)
<1>1. PICK n1 \in Int, d1 \in Int : a = <<n1, d1>> OBVIOUS
<1>2. PICK n2 \in Int, d2 \in Int : b = <<n2, d2>> OBVIOUS
<1>3. PICK n3 \in Int, d3 \in Int : c = <<n3, d3>> OBVIOUS
<1>4. CASE d1 = 0 BY <1>1, <1>2, <1>3, <1>4, DefinedPair DEF Same
<1>5. CASE d1 # 0
  <2>1. d2 # 0 /\ d3 # 0 BY <1>1, <1>2, <1>3, <1>5, DefinedPair DEF Same
  <2>2. n1 * d2 = n2 * d1 /\ n2 * d3 = n3 * d2
    BY <1>1, <1>2, <1>3, <1>5, <2>1, DefinedPair DEF Same, REq, NEq, NMul
  <2>3. (n1 * d3) * d2 = (n3 * d1) * d2
    <3>1. (n1 * d3) * d2 = (n1 * d2) * d3 OBVIOUS
    <3>2. (n1 * d2) * d3 = (n2 * d1) * d3 BY <2>2
    <3>3. (n2 * d1) * d3 = (n2 * d3) * d1 OBVIOUS
    <3>4. (n2 * d3) * d1 = (n3 * d2) * d1 BY <2>2
    <3>5. (n3 * d2) * d1 = (n3 * d1) * d2 OBVIOUS
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5
  <2>4. n1 * d3 = n3 * d1
    <3>1. (n1 * d3 - n3 * d1) * d2 = 0
      <4>1. (n1 * d3 - n3 * d1) * d2 = (n1 * d3) * d2 - (n3 * d1) * d2 OBVIOUS
      <4> QED BY <4>1, <2>3
    <3>2. n1 * d3 - n3 * d1 = 0 BY <3>1, <2>1, ProductZero
    <3> QED BY <3>2
  <2> QED BY <2>4, <1>1, <1>3, <1>5, <2>1, DefinedPair DEF Same, REq, NEq, NMul
<1> QED BY <1>4, <1>5

LEMMA SameSym ==
  ASSUME NEW a \in Int \X Int, NEW b \in Int \X Int, Same(a, b)
  PROVE  Same(b, a)
<1>1. PICK n1 \in Int, d1 \in Int : a = <<n1, d1>> OBVIOUS
<1>2. PICK n2 \in Int, d2 \in Int : b = <<n2, d2>> OBVIOUS
<1> QED BY <1>1, <1>2, DefinedPair DEF Same, REq, NEq, NMul

LEMMA SameRefl == \A a \in Int \X Int : Same(a, a)
<1> SUFFICES ASSUME NEW n \in Int, NEW d \in Int PROVE Same(<<n, d>>, <<n, d>>)
  OBVIOUS
<1> QED BY DefinedPair DEF Same, REq, NEq, NMul

\* Every way of reducing keeps the value and gives the promised form.
THEOREM Modes ==
  ASSUME NEW n \in Int, NEW d \in Int, NEW mode \in {"no", "ignore", "norm"}
  PROVE  LET y == ReduceMode(<<n, d>>, mode)
         IN /\ y \in Int \X Int
            /\ Same(y, <<n, d>>)
            /\ d # 0 /\ mode # "no" => LowestTerms(y)
            /\ d # 0 /\ mode = "norm" => Canonical(y)
            /\ d = 0 /\ mode # "no" => y = Undefined
<1> DEFINE x == <<n, d>>
<1>1. CASE mode = "no"
  <2>1. ReduceMode(x, mode) = x BY <1>1 DEF ReduceMode
  <2> QED BY <1>1, <2>1, SameRefl
<1>2. CASE mode = "ignore"
  <2>1. ReduceMode(x, mode) = ReduceIgnoreSigns(x) BY <1>2 DEF ReduceMode
  <2>2. CASE d # 0 BY <1>2, <2>1, <2>2, Reducing
  <2>3. CASE d = 0
    <3>1. ReduceIgnoreSigns(x) = <<0, 0>> BY <2>3, DefinedPair DEF ReduceIgnoreSigns, Undefined
    <3> QED BY <1>2, <2>1, <2>3, <3>1, DefinedPair DEF Same, Undefined
  <2> QED BY <2>2, <2>3
<1>3. CASE mode = "norm"
  <2>1. ReduceMode(x, mode) = NormalizeSigns(ReduceIgnoreSigns(x)) BY <1>3 DEF ReduceMode, Reduce
  <2>2. CASE d # 0
    <3>1. PICK i, j \in Int : /\ ReduceIgnoreSigns(x) = <<i, j>> /\ j # 0
                              /\ Same(<<i, j>>, x) /\ LowestTerms(<<i, j>>)
      BY <2>2, Reducing
    <3>2. PICK p, q \in Int : /\ NormalizeSigns(<<i, j>>) = <<p, q>> /\ q > 0
                              /\ Same(<<p, q>>, <<i, j>>) /\ LowestTerms(<<p, q>>)
      BY <3>1, Normalizing
    <3>3. Same(<<p, q>>, x) BY <3>1, <3>2, SameTrans
    <3>4. Canonical(<<p, q>>) BY <3>2, Signed DEF Canonical
    <3>5. ReduceMode(x, mode) = <<p, q>> BY <2>1, <3>1, <3>2
    <3> QED BY <2>2, <3>2, <3>3, <3>4, <3>5
  <2>3. CASE d = 0
    <3>1. ReduceIgnoreSigns(x) = <<0, 0>> BY <2>3, DefinedPair DEF ReduceIgnoreSigns, Undefined
    <3>2. NormalizeSigns(<<0, 0>>) = <<0, 0>> BY DEF NormalizeSigns, NSgn, NNeg
    <3> QED BY <1>3, <2>1, <2>3, <3>1, <3>2, DefinedPair DEF Same, Undefined
  <2> QED BY <2>2, <2>3
<1> QED BY <1>1, <1>2, <1>3

(****************************** C02, C08: quotients ************************)
LEMMA AbsMul == \A a, b \in Int : NAbs(a * b) = NAbs(a) * NAbs(b)
<1> SUFFICES ASSUME NEW a \in Int, NEW b \in Int PROVE NAbs(a * b) = NAbs(a) * NAbs(b)
  OBVIOUS
<1>1. CASE a >= 0 /\ b >= 0
  <2>1. a * b >= 0 BY <1>1
  <2> QED BY <1>1, <2>1 DEF NAbs
<1>2. CASE a >= 0 /\ b < 0
  <2>1. a * b <= 0 BY <1>2
  <2>2. -(a * b) = a * (-b) OBVIOUS
  <2>3. a * b = 0 => a = 0 BY <1>2, ProductZero
  <2> QED BY <1>2, <2>1, <2>2, <2>3 DEF NAbs
<1>3. CASE a < 0 /\ b >= 0
  <2>1. a * b <= 0 BY <1>3
  <2>2. -(a * b) = (-a) * b OBVIOUS
  <2>3. a * b = 0 => b = 0 BY <1>3, ProductZero
  <2> QED BY <1>3, <2>1, <2>2, <2>3 DEF NAbs
<1>4. CASE a < 0 /\ b < 0
  <2>1. a * b > 0 BY <1>4
  <2>2. a * b = (-a) * (-b) OBVIOUS
  <2> QED BY <1>4, <2>1, <2>2 DEF NAbs
<1> QED BY <1>1, <1>2, <1>3, <1>4

LEMMA SgnMul == \A a, b \in Int : NSgn(a * b) = NSgn(a) * NSgn(b)
<1> SUFFICES ASSUME NEW a \in Int, NEW b \in Int PROVE NSgn(a * b) = NSgn(a) * NSgn(b)
  OBVIOUS
<1>1. NSgn(a) * NSgn(b) \in {-1, 0, 1} BY DEF NSgn
<1>2. NSgn(a * b) \in {-1, 0, 1} BY DEF NSgn
<1>3. /\ NSgn(a * b) < 0 <=> a * b < 0
      /\ NSgn(a * b) > 0 <=> a * b > 0
  BY Signed
<1>4. /\ NSgn(a) * NSgn(b) < 0 <=> a * b < 0
      /\ NSgn(a) * NSgn(b) > 0 <=> a * b > 0
  BY SgnOfProduct
<1> QED BY <1>1, <1>2, <1>3, <1>4

\* Quotient and remainder by their bounds.
LEMMA DivBounds == \A a \in Int, b \in Nat : b > 0 => /\ a \div b \in Int
                                                      /\ (a \div b) * b <= a
                                                      /\ a < (a \div b) * b + b
  OBVIOUS

LEMMA DivUnique ==
  ASSUME NEW a \in Int, NEW b \in Nat, b > 0, NEW q \in Int, q * b <= a, a < q * b + b
  PROVE  a \div b = q
<1>1. a \div b \in Int /\ (a \div b) * b <= a /\ a < (a \div b) * b + b BY DivBounds
<1> DEFINE p == a \div b
<1> HIDE DEF p
<1>2. p \in Int /\ p * b <= a /\ a < p * b + b BY <1>1 DEF p
<1>3. CASE p >= q + 1
  <2>1. (p - q - 1) * b >= 0 BY <1>3, <1>2
  <2>2. (p - q - 1) * b = p * b - (q * b + b) BY <1>2
  <2> QED BY <2>1, <2>2, <1>2
<1>4. CASE p <= q - 1
  <2>1. (q - p - 1) * b >= 0 BY <1>4, <1>2
  <2>2. (q - p - 1) * b = q * b - (p * b + b) BY <1>2
  <2> QED BY <2>1, <2>2, <1>2
<1> QED BY <1>2, <1>3, <1>4 DEF p

LEMMA SignRules == \A m, y \in Int : y > 0 => /\ m < 0 => m * y < 0
                                              /\ m >= 0 => m * y >= 0
  OBVIOUS

LEMMA DivSame ==
  ASSUME NEW x \in Nat, NEW y \in Nat, NEW u \in Nat, NEW v \in Nat, y > 0, v > 0, x * v = u * y
  PROVE  x \div y = u \div v
<1> DEFINE q == x \div y
<1>1. q \in Int /\ q * y <= x /\ x < q * y + y BY DivBounds
<1> HIDE DEF q
<1>2. q * v <= u
  <2>1. (x - q * y) * v >= 0 BY <1>1
  <2>2. (x - q * y) * v = (u - q * v) * y
    <3>1. (x - q * y) * v = x * v - (q * v) * y BY <1>1
    <3>2. (u - q * v) * y = u * y - (q * v) * y BY <1>1
    <3> QED BY <3>1, <3>2
  <2>3. u - q * v < 0 => (u - q * v) * y < 0
    <3>1. u - q * v \in Int BY <1>1
    <3> QED BY <3>1, SignRules
  <2> QED BY <2>1, <2>2, <2>3, <1>1
<1>3. u < q * v + v
  <2>1. (x - q * y - y) * v < 0 BY <1>1
  <2>2. (x - q * y - y) * v = (u - q * v - v) * y
    <3>1. (x - q * y - y) * v = x * v - (q * v + v) * y BY <1>1
    <3>2. (u - q * v - v) * y = u * y - (q * v + v) * y BY <1>1
    <3> QED BY <3>1, <3>2
  <2>3. u - q * v - v >= 0 => (u - q * v - v) * y >= 0
    <3>1. u - q * v - v \in Int BY <1>1
    <3> QED BY <3>1, SignRules
  <2> QED BY <2>1, <2>2, <2>3, <1>1
<1> QED BY <1>1, <1>2, <1>3, DivUnique DEF q

\* The truncated quotient depends on the value only.
LEMMA QuotSame ==
  ASSUME NEW x \in Int, NEW y \in Int, NEW u \in Int, NEW v \in Int, y # 0, v # 0, x * v = u * y
  PROVE  NQuot(x, y) = NQuot(u, v)
<1>1. NAbs(x) * NAbs(v) = NAbs(u) * NAbs(y) BY AbsMul
<1>2. NAbs(x) \in Nat /\ NAbs(y) \in Nat /\ NAbs(u) \in Nat /\ NAbs(v) \in Nat /\ NAbs(y) > 0 /\ NAbs(v) > 0
  BY AbsSgn
<1>3. NAbs(x) \div NAbs(y) = NAbs(u) \div NAbs(v) BY <1>1, <1>2, DivSame
<1>4. NSgn(x) * NSgn(y) = NSgn(u) * NSgn(v)
  <2>1. NSgn(x) * NSgn(v) = NSgn(u) * NSgn(y) BY SgnMul
  <2>2. NSgn(y) \in {-1, 1} /\ NSgn(v) \in {-1, 1} /\ NSgn(x) \in {-1, 0, 1} /\ NSgn(u) \in {-1, 0, 1}
    BY DEF NSgn
  <2> QED BY <2>1, <2>2
<1> QED BY <1>3, <1>4 DEF NQuot

LEMMA QuotRem ==
  ASSUME NEW a \in Int, NEW b \in Int, b # 0
  PROVE  /\ NQuot(a, b) \in Int
         /\ NRem(a, b) = a - b * NQuot(a, b)
         /\ NRem(a, b) \in Int
         /\ NAbs(NRem(a, b)) < NAbs(b)
         /\ NRem(a, b) # 0 => NSgn(NRem(a, b)) = NSgn(a)
<1> DEFINE A == NAbs(a)
<1> DEFINE B == NAbs(b)
<1> DEFINE q == A \div B
<1>1. A \in Nat /\ B \in Nat /\ B > 0 BY AbsSgn
<1>2. q \in Int /\ q * B <= A /\ A < q * B + B BY <1>1, DivBounds
<1>3. NQuot(a, b) = NSgn(a) * NSgn(b) * q BY DEF NQuot
<1> HIDE DEF q
<1>4. NRem(a, b) = a - b * NQuot(a, b) BY DEF NRem
<1>5. CASE a = 0
  <2>1. NSgn(a) = 0 BY <1>5 DEF NSgn
  <2>2. NQuot(a, b) = 0
    <3>1. NSgn(b) \in Int BY DEF NSgn
    <3> QED BY <2>1, <1>3, <1>2, <3>1
  <2>3. NRem(a, b) = 0 BY <1>4, <1>5, <2>2
  <2>4. NAbs(0) = 0 BY DEF NAbs
  <2> QED BY <2>2, <2>3, <2>4, <1>1, <1>4
<1>6. CASE a > 0 /\ b > 0
  <2>s. NSgn(a) = 1 /\ NSgn(b) = 1 BY <1>6 DEF NSgn
  <2>a. A = a /\ B = b BY <1>6 DEF NAbs
  <2>1. NQuot(a, b) = q /\ A = a /\ B = b BY <2>s, <2>a, <1>3, <1>2
  <2>2. NRem(a, b) = a - q * b BY <2>1, <1>4, <1>2
  <2> QED BY <2>1, <2>2, <1>2, <1>6 DEF NSgn, NAbs
<1>7. CASE a > 0 /\ b < 0
  <2>s. NSgn(a) = 1 /\ NSgn(b) = -1 BY <1>7 DEF NSgn
  <2>a. A = a /\ B = -b BY <1>7 DEF NAbs
  <2>1. NQuot(a, b) = -q /\ A = a /\ B = -b BY <2>s, <2>a, <1>3, <1>2
  <2>2. NRem(a, b) = A - q * B
    <3>1. b * (-q) = q * (-b) BY <1>2
    <3> QED BY <2>1, <1>4, <1>2, <3>1
  <2> QED BY <2>1, <2>2, <1>2, <1>7 DEF NSgn, NAbs
<1>8. CASE a < 0 /\ b > 0
  <2>s. NSgn(a) = -1 /\ NSgn(b) = 1 BY <1>8 DEF NSgn
  <2>a. A = -a /\ B = b BY <1>8 DEF NAbs
  <2>1. NQuot(a, b) = -q /\ A = -a /\ B = b BY <2>s, <2>a, <1>3, <1>2
  <2>2. NRem(a, b) = -(A - q * B)
    <3>1. b * (-q) = -(q * b) BY <1>2
    <3> QED BY <2>1, <1>4, <1>2, <3>1
  <2> QED BY <2>1, <2>2, <1>2, <1>8 DEF NSgn, NAbs
<1>9. CASE a < 0 /\ b < 0
  <2>s. NSgn(a) = -1 /\ NSgn(b) = -1 BY <1>9 DEF NSgn
  <2>a. A = -a /\ B = -b BY <1>9 DEF NAbs
  <2>1. NQuot(a, b) = q /\ A = -a /\ B = -b BY <2>s, <2>a, <1>3, <1>2
  <2>2. NRem(a, b) = -(A - q * B)
    <3>1. b * q = -(q * (-b)) BY <1>2
    <3> QED BY <2>1, <1>4, <1>2, <3>1
  <2> QED BY <2>1, <2>2, <1>2, <1>9 DEF NSgn, NAbs
<1> QED BY <1>5, <1>6, <1>7, <1>8, <1>9, <1>4

(****************************** C02: modulus *******************************)
LEMMA ModMeaning ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int, d1 # 0, d2 # 0, n2 # 0
  PROVE  /\ Meaning("modulus", <<n1, d1>>, <<n2, d2>>)
            = <<n1 * d2 - n2 * NQuot(n1 * d2, d1 * n2) * d1, d1 * d2>>
         /\ NQuot(n1 * d2, d1 * n2) \in Int
<1>0. d1 * n2 # 0 BY ProductZero
<1>1. NQuot(n1 * d2, d1 * n2) \in Int BY <1>0, QuotRem
<1>2. Meaning("modulus", <<n1, d1>>, <<n2, d2>>) = RMod(<<n1, d1>>, <<n2, d2>>)
  BY DefinedPair, RSgnZero DEF Meaning
<1>3. RTrunc(RDiv(<<n1, d1>>, <<n2, d2>>)) = NQuot(n1 * d2, d1 * n2) BY DEF RTrunc, RDiv, NMul
<1> DEFINE t == NQuot(n1 * d2, d1 * n2)
<1> HIDE DEF t
<1>4. RMod(<<n1, d1>>, <<n2, d2>>) = RSub(<<n1, d1>>, RMul(<<n2, d2>>, <<t, 1>>))
  BY <1>3 DEF RMod, RInt, t
<1>5. RMul(<<n2, d2>>, <<t, 1>>) = <<n2 * t, d2>> BY <1>1 DEF RMul, NMul, t
<1>6. RSub(<<n1, d1>>, <<n2 * t, d2>>) = <<n1 * d2 - n2 * t * d1, d1 * d2>> BY DEF RSub, NSub, NMul
<1> QED BY <1>1, <1>2, <1>4, <1>5, <1>6 DEF t

\* x and y are the operands scaled to a common denominator k.
LEMMA ModScaled ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int, d1 # 0, d2 # 0, n2 # 0,
         NEW x \in Int, NEW y \in Int, NEW k \in Int, k # 0,
         x * (d1 * d2) = (n1 * d2) * k, y * (d1 * d2) = (n2 * d1) * k
  PROVE  /\ Same(<<NRem(x, y), k>>, Meaning("modulus", <<n1, d1>>, <<n2, d2>>))
         /\ NRem(x, y) \in Int
<1> DEFINE f == d1 * d2
<1> DEFINE X == n1 * d2
<1> DEFINE Y == n2 * d1
<1>0. f \in Int /\ f # 0 /\ X \in Int /\ Y \in Int /\ Y # 0 BY ProductZero
<1>1. x * f = X * k /\ y * f = Y * k OBVIOUS
<1>a. d1 * n2 = Y OBVIOUS
<1> DEFINE t == NQuot(X, Y)
<1>m. Meaning("modulus", <<n1, d1>>, <<n2, d2>>) = <<n1 * d2 - n2 * t * d1, d1 * d2>> /\ t \in Int
  BY ModMeaning, <1>a
<1>n. n2 * t * d1 = Y * t BY <1>m
<1> HIDE DEF f, X, Y, t
<1>2. y # 0
  <2>1. Y * k # 0 BY <1>0, ProductZero
  <2>2. y * f # 0 BY <1>1, <2>1
  <2> QED BY <2>2, <1>0
<1>3. x * Y = X * y
  <2>1. (x * Y - X * y) * f = 0
    <3>1. (x * Y - X * y) * f = (x * f) * Y - X * (y * f) BY <1>0
    <3>2. (x * f) * Y - X * (y * f) = (X * k) * Y - X * (Y * k) BY <1>1
    <3>3. (X * k) * Y - X * (Y * k) = 0 BY <1>0
    <3> QED BY <3>1, <3>2, <3>3
  <2>2. x * Y - X * y = 0 BY <2>1, <1>0, ProductZero
  <2> QED BY <2>2, <1>0
<1>4. NQuot(x, y) = t BY <1>0, <1>2, <1>3, QuotSame DEF t
<1>5. NRem(x, y) = x - y * t BY <1>4, <1>2, QuotRem
<1>6. (x - y * t) * f = (X - Y * t) * k
  <2>1. (x - y * t) * f = x * f - (y * f) * t BY <1>0, <1>m
  <2>2. (X - Y * t) * k = X * k - (Y * k) * t BY <1>0, <1>m
  <2> QED BY <2>1, <2>2, <1>1
<1>7. Meaning("modulus", <<n1, d1>>, <<n2, d2>>) = <<X - Y * t, f>> BY <1>m, <1>n DEF X, f
<1> QED BY <1>0, <1>5, <1>6, <1>7, <1>m, DefinedPair DEF Same, REq, NEq, NMul

LEMMA ModUndefined ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int, d1 = 0 \/ d2 = 0 \/ n2 = 0
  PROVE  Meaning("modulus", <<n1, d1>>, <<n2, d2>>) = Undefined
  BY DefinedPair, RSgnZero DEF Meaning

THEOREM Modulus ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int
  PROVE  /\ Same(SafeFF("modulus", <<n1, d1>>, <<n2, d2>>).out, Meaning("modulus", <<n1, d1>>, <<n2, d2>>))
         /\ Same(FastFF("modulus", <<n1, d1>>, <<n2, d2>>).out, Meaning("modulus", <<n1, d1>>, <<n2, d2>>))
         /\ SafeFF("modulus", <<n1, d1>>, <<n2, d2>>).out \in Int \X Int
         /\ FastFF("modulus", <<n1, d1>>, <<n2, d2>>).out \in Int \X Int
<1>0. Same(Undefined, Undefined) /\ Undefined \in Int \X Int BY SameRefl DEF Undefined
<1>1. CASE d1 = 0 \/ d2 = 0 \/ n2 = 0
  <2>1. SafeFF("modulus", <<n1, d1>>, <<n2, d2>>).out = Undefined
    BY <1>1, DefinedPair, SgnZero DEF SafeFF, Res
  <2>2. FastFF("modulus", <<n1, d1>>, <<n2, d2>>).out = Undefined
    BY <1>1, DefinedPair, SgnZero DEF FastFF, Res
  <2> QED BY <1>0, <2>1, <2>2, <1>1, ModUndefined
<1>2. CASE d1 # 0 /\ d2 # 0 /\ n2 # 0
  <2> DEFINE k == Lcm(d1, d2)
  <2>1. PICK p, q \in Int : k = p * d1 /\ k = q * d2 BY <1>2, LcmFacts
  <2>2. k \in Int /\ k > 0 BY <1>2, LcmFacts
  <2> HIDE DEF k
  <2>3. Scale(k, <<n1, d1>>) = p * n1 /\ Scale(k, <<n2, d2>>) = q * n2
    BY <2>1, <2>2, <1>2, Scaled
  <2>4. (p * n1) * (d1 * d2) = (n1 * d2) * k BY <2>1
  <2>5. (q * n2) * (d1 * d2) = (n2 * d1) * k BY <2>1
  <2>6. SafeFF("modulus", <<n1, d1>>, <<n2, d2>>).out = <<NRem(p * n1, q * n2), k>>
    BY <2>3, <1>2, DefinedPair, SgnZero DEF SafeFF, Res, k
  <2>7. /\ Same(<<NRem(p * n1, q * n2), k>>, Meaning("modulus", <<n1, d1>>, <<n2, d2>>))
        /\ NRem(p * n1, q * n2) \in Int
    <3>0. k # 0 /\ k \in Int BY <2>2
    <3>1. \A x, y \in Int : x * (d1 * d2) = (n1 * d2) * k /\ y * (d1 * d2) = (n2 * d1) * k
            => /\ Same(<<NRem(x, y), k>>, Meaning("modulus", <<n1, d1>>, <<n2, d2>>))
               /\ NRem(x, y) \in Int
      BY <3>0, <1>2, ModScaled
    <3>2. p * n1 \in Int /\ q * n2 \in Int OBVIOUS
    <3> QED BY <3>1, <3>2, <2>4, <2>5
  <2>8. FastFF("modulus", <<n1, d1>>, <<n2, d2>>).out = <<NRem(n1 * d2, n2 * d1), d1 * d2>>
    BY <1>2, DefinedPair, SgnZero DEF FastFF, Res, NMul
  <2>9. /\ Same(<<NRem(n1 * d2, n2 * d1), d1 * d2>>, Meaning("modulus", <<n1, d1>>, <<n2, d2>>))
        /\ NRem(n1 * d2, n2 * d1) \in Int
    <3>1. d1 * d2 # 0 /\ d1 * d2 \in Int BY <1>2, ProductZero
    <3> QED BY <1>2, <3>1, ModScaled
  <2> QED BY <2>2, <2>6, <2>7, <2>8, <2>9
<1> QED BY <1>1, <1>2

THEOREM ModulusWithInteger ==
  ASSUME NEW n \in Int, NEW d \in Int, NEW i \in Int
  PROVE  /\ Same(BaseFR("modulus", <<n, d>>, i).out, Meaning("modulus", <<n, d>>, <<i, 1>>))
         /\ BaseFR("modulus", <<n, d>>, i).out \in Int \X Int
<1>1. CASE d = 0 \/ i = 0
  <2>1. BaseFR("modulus", <<n, d>>, i).out = Undefined
    BY <1>1, DefinedPair, SgnZero DEF BaseFR, Res
  <2>2. Meaning("modulus", <<n, d>>, <<i, 1>>) = Undefined BY <1>1, ModUndefined
  <2> QED BY <2>1, <2>2, SameRefl DEF Undefined
<1>2. CASE d # 0 /\ i # 0
  <2>1. BaseFR("modulus", <<n, d>>, i).out = <<NRem(n, d * i), d>>
    BY <1>2, DefinedPair, SgnZero DEF BaseFR, Res, NMul
  <2>2. n * (d * 1) = (n * 1) * d /\ (d * i) * (d * 1) = (i * d) * d OBVIOUS
  <2> DEFINE y == d * i
  <2>3. y \in Int /\ y * (d * 1) = (i * d) * d BY <2>2
  <2> HIDE DEF y
  <2>4. /\ Same(<<NRem(n, y), d>>, Meaning("modulus", <<n, d>>, <<i, 1>>))
        /\ NRem(n, y) \in Int
    BY <1>2, <2>2, <2>3, ModScaled
  <2> QED BY <2>1, <2>4 DEF y
<1> QED BY <1>1, <1>2

THEOREM IntegerModulus ==
  ASSUME NEW n \in Int, NEW d \in Int, NEW i \in Int
  PROVE  /\ Same(BaseRF("modulus", i, <<n, d>>).out, Meaning("modulus", <<i, 1>>, <<n, d>>))
         /\ BaseRF("modulus", i, <<n, d>>).out \in Int \X Int
<1>3. CASE d = 0 \/ n = 0
  <2>1. BaseRF("modulus", i, <<n, d>>).out = Undefined
    BY <1>3, DefinedPair, SgnZero DEF BaseRF, Res
  <2>2. Meaning("modulus", <<i, 1>>, <<n, d>>) = Undefined BY <1>3, ModUndefined
  <2> QED BY <2>1, <2>2, SameRefl DEF Undefined
<1>4. CASE d # 0 /\ n # 0
  <2>1. BaseRF("modulus", i, <<n, d>>).out = <<NRem(i * d, n), d>>
    BY <1>4, DefinedPair, SgnZero DEF BaseRF, Res, NMul
  <2>2. (i * d) * (1 * d) = (i * d) * d /\ n * (1 * d) = (n * 1) * d OBVIOUS
  <2> DEFINE x == i * d
  <2>3. x \in Int /\ x * (1 * d) = (i * d) * d BY <2>2
  <2> HIDE DEF x
  <2>4. /\ Same(<<NRem(x, n), d>>, Meaning("modulus", <<i, 1>>, <<n, d>>))
        /\ NRem(x, n) \in Int
    BY <1>4, <2>2, <2>3, ModScaled
  <2> QED BY <2>1, <2>4 DEF x
<1> QED BY <1>3, <1>4

(****************************** C08: rounding ******************************)
LEMMA AgainstInteger ==
  ASSUME NEW k \in Int, NEW n \in Int, NEW d \in Int, d # 0
  PROVE  /\ RLe(<<k, 1>>, <<n, d>>) <=> (k * d - n) * d <= 0
         /\ RLt(<<k, 1>>, <<n, d>>) <=> (k * d - n) * d < 0
         /\ RLe(<<n, d>>, <<k, 1>>) <=> (n - k * d) * d <= 0
         /\ RLt(<<n, d>>, <<k, 1>>) <=> (n - k * d) * d < 0
<1>1. RSub(<<k, 1>>, <<n, d>>) = <<k * d - n * 1, 1 * d>> BY DEF RSub, NSub, NMul
<1>2. RSub(<<n, d>>, <<k, 1>>) = <<n * 1 - k * d, d * 1>> BY DEF RSub, NSub, NMul
<1>3. k * d - n * 1 = k * d - n /\ n * 1 - k * d = n - k * d /\ 1 * d = d /\ d * 1 = d OBVIOUS
<1>4. RSgn(<<k * d - n, d>>) = NSgn(k * d - n) * NSgn(d) /\ RSgn(<<n - k * d, d>>) = NSgn(n - k * d) * NSgn(d)
  BY DEF RSgn
<1> DEFINE e == k * d - n
<1> DEFINE f == n - k * d
<1>5. e \in Int /\ f \in Int OBVIOUS
<1> HIDE DEF e, f
<1>6. /\ NSgn(e) * NSgn(d) \in Int /\ (NSgn(e) * NSgn(d) < 0 <=> e * d < 0)
      /\ (NSgn(e) * NSgn(d) = 0 <=> e * d = 0)
      /\ NSgn(f) * NSgn(d) \in Int /\ (NSgn(f) * NSgn(d) < 0 <=> f * d < 0)
      /\ (NSgn(f) * NSgn(d) = 0 <=> f * d = 0)
  BY <1>5, SgnOfProduct
<1>7. RSgn(RSub(<<k, 1>>, <<n, d>>)) = NSgn(e) * NSgn(d) BY <1>1, <1>3, <1>4 DEF e
<1>8. RSgn(RSub(<<n, d>>, <<k, 1>>)) = NSgn(f) * NSgn(d) BY <1>2, <1>3, <1>4 DEF f
<1>9. /\ RLe(<<k, 1>>, <<n, d>>) <=> e * d <= 0
      /\ RLt(<<k, 1>>, <<n, d>>) <=> e * d < 0
      /\ RLe(<<n, d>>, <<k, 1>>) <=> f * d <= 0
      /\ RLt(<<n, d>>, <<k, 1>>) <=> f * d < 0
  BY <1>5, <1>6, <1>7, <1>8 DEF RLe, RLt
<1> QED BY <1>9 DEF e, f

LEMMA FloorDivBounds ==
  ASSUME NEW n \in Int, NEW d \in Int, d # 0
  PROVE  /\ NFloorDiv(n, d) \in Int
         /\ (NFloorDiv(n, d) * d - n) * d <= 0
         /\ (n - (NFloorDiv(n, d) + 1) * d) * d < 0
<1>1. CASE d > 0
  <2> DEFINE q == n \div d
  <2>1. q \in Int /\ q * d <= n /\ n < q * d + d BY <1>1, DivBounds
  <2>2. NFloorDiv(n, d) = q BY <1>1 DEF NFloorDiv
  <2> HIDE DEF q
  <2>3. (q * d - n) * d <= 0 BY <2>1, <1>1
  <2>4. (n - (q + 1) * d) * d < 0
    <3>1. (q + 1) * d = q * d + d BY <2>1
    <3>2. n - (q + 1) * d < 0 BY <3>1, <2>1
    <3>3. n - (q + 1) * d \in Int BY <2>1
    <3> QED BY <3>2, <3>3, <1>1, SignRules
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1>2. CASE d < 0
  <2> DEFINE q == (-n) \div (-d)
  <2>0. -d \in Nat /\ -d > 0 /\ -n \in Int BY <1>2
  <2>1. q \in Int /\ q * (-d) <= -n /\ -n < q * (-d) + (-d) BY <2>0, DivBounds
  <2>2. NFloorDiv(n, d) = q BY <1>2 DEF NFloorDiv
  <2> HIDE DEF q
  <2>3. (q * d - n) * d <= 0
    <3>1. q * (-d) = -(q * d) BY <2>1
    <3>2. q * d - n >= 0 BY <3>1, <2>1
    <3>3. q * d - n \in Int BY <2>1
    <3>4. (q * d - n) * (-d) >= 0 BY <3>2, <3>3, <2>0, SignRules
    <3>5. (q * d - n) * (-d) = -((q * d - n) * d) BY <3>3
    <3> QED BY <3>3, <3>4, <3>5
  <2>4. (n - (q + 1) * d) * d < 0
    <3>1. (q + 1) * d = q * d + d /\ q * (-d) = -(q * d) BY <2>1
    <3>2. n - (q + 1) * d > 0 BY <3>1, <2>1
    <3>3. n - (q + 1) * d \in Int BY <2>1
    <3>4. (-(n - (q + 1) * d)) * (-d) < 0 BY <3>2, <3>3, <2>0, SignRules
    <3>5. (-(n - (q + 1) * d)) * (-d) = (n - (q + 1) * d) * d BY <3>3
    <3> QED BY <3>4, <3>5
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1> QED BY <1>1, <1>2

THEOREM Floors ==
  ASSUME NEW n \in Int, NEW d \in Int, d # 0
  PROVE  RFloor(<<n, d>>) \in Int /\ IsFloor(RFloor(<<n, d>>), <<n, d>>)
<1>1. RFloor(<<n, d>>) = NFloorDiv(n, d) BY DEF RFloor
<1> DEFINE k == NFloorDiv(n, d)
<1>2. k \in Int /\ (k * d - n) * d <= 0 /\ (n - (k + 1) * d) * d < 0 BY FloorDivBounds
<1> HIDE DEF k
<1>3. k + 1 \in Int BY <1>2
<1>4. RLe(<<k, 1>>, <<n, d>>) /\ RLt(<<n, d>>, <<k + 1, 1>>) BY <1>2, <1>3, AgainstInteger
<1> QED BY <1>1, <1>2, <1>4 DEF IsFloor, RInt, NAdd, k

THEOREM Ceilings ==
  ASSUME NEW n \in Int, NEW d \in Int, d # 0
  PROVE  RCeil(<<n, d>>) \in Int /\ IsCeil(RCeil(<<n, d>>), <<n, d>>)
<1>1. RCeil(<<n, d>>) = -NFloorDiv(-n, d) BY DEF RCeil, NNeg
<1> DEFINE q == NFloorDiv(-n, d)
<1>2. q \in Int /\ (q * d - (-n)) * d <= 0 /\ ((-n) - (q + 1) * d) * d < 0 BY FloorDivBounds
<1> HIDE DEF q
<1> DEFINE k == -q
<1>3. k \in Int /\ k - 1 \in Int BY <1>2
<1>4. n - k * d = q * d - (-n) BY <1>2
<1>5. (k - 1) * d - n = (-n) - (q + 1) * d BY <1>2
<1> HIDE DEF k
<1>6. RLe(<<n, d>>, <<k, 1>>)
  <2>1. (n - k * d) * d <= 0 BY <1>2, <1>4
  <2> QED BY <2>1, <1>3, AgainstInteger
<1>7. RLt(<<k - 1, 1>>, <<n, d>>)
  <2>1. ((k - 1) * d - n) * d < 0 BY <1>2, <1>5
  <2> QED BY <2>1, <1>3, AgainstInteger
<1> QED BY <1>1, <1>3, <1>6, <1>7 DEF IsCeil, RInt, NSub, k, q

LEMMA SignOfPair == \A e, f \in Int : /\ RSgn(<<e, f>>) \in Int
                                      /\ RSgn(<<e, f>>) < 0 <=> e * f < 0
                                      /\ RSgn(<<e, f>>) = 0 <=> e * f = 0
                                      /\ RSgn(<<e, f>>) > 0 <=> e * f > 0
<1> SUFFICES ASSUME NEW e \in Int, NEW f \in Int
             PROVE  /\ RSgn(<<e, f>>) \in Int
                    /\ RSgn(<<e, f>>) < 0 <=> e * f < 0
                    /\ RSgn(<<e, f>>) = 0 <=> e * f = 0
                    /\ RSgn(<<e, f>>) > 0 <=> e * f > 0
  OBVIOUS
<1>1. RSgn(<<e, f>>) = NSgn(e) * NSgn(f) BY DEF RSgn
<1> QED BY <1>1, SgnOfProduct

THEOREM Roundings ==
  ASSUME NEW n \in Int, NEW d \in Int, d # 0
  PROVE  RRound(<<n, d>>) \in Int /\ IsRound(RRound(<<n, d>>), <<n, d>>)
<1>1. RRound(<<n, d>>) = NFloorDiv(2 * n + d, 2 * d) BY DEF RRound, NAdd, NMul
<1> DEFINE k == NFloorDiv(2 * n + d, 2 * d)
<1>2. /\ k \in Int
      /\ (k * (2 * d) - (2 * n + d)) * (2 * d) <= 0
      /\ ((2 * n + d) - (k + 1) * (2 * d)) * (2 * d) < 0
  <2>1. 2 * n + d \in Int /\ 2 * d \in Int /\ 2 * d # 0 OBVIOUS
  <2> QED BY <2>1, FloorDivBounds
<1> HIDE DEF k
<1>3. RSub(<<k, 1>>, <<n, d>>) = <<k * d - n * 1, 1 * d>> BY DEF RSub, NSub, NMul
<1>4. RSub(<<-1, 2>>, <<k * d - n * 1, 1 * d>>) = <<-1 * (1 * d) - (k * d - n * 1) * 2, 2 * (1 * d)>>
  BY DEF RSub, NSub, NMul
<1>5. RSub(<<k * d - n * 1, 1 * d>>, <<1, 2>>) = <<(k * d - n * 1) * 2 - 1 * (1 * d), (1 * d) * 2>>
  BY DEF RSub, NSub, NMul
<1>6. -1 * (1 * d) - (k * d - n * 1) * 2 = (2 * n + d) - (k + 1) * (2 * d) /\ 2 * (1 * d) = 2 * d
  BY <1>2
<1>7. (k * d - n * 1) * 2 - 1 * (1 * d) = k * (2 * d) - (2 * n + d) /\ (1 * d) * 2 = 2 * d
  BY <1>2
<1>8. RLt(<<-1, 2>>, RSub(<<k, 1>>, <<n, d>>))
  <2> DEFINE e == (2 * n + d) - (k + 1) * (2 * d)
  <2> DEFINE f == 2 * d
  <2>1. e \in Int /\ f \in Int /\ e * f < 0 BY <1>2
  <2>2. RSub(<<-1, 2>>, RSub(<<k, 1>>, <<n, d>>)) = <<e, f>> BY <1>3, <1>4, <1>6
  <2> HIDE DEF e, f
  <2> QED BY <2>1, <2>2, SignOfPair DEF RLt
<1>9. RLe(RSub(<<k, 1>>, <<n, d>>), <<1, 2>>)
  <2> DEFINE e == k * (2 * d) - (2 * n + d)
  <2> DEFINE f == 2 * d
  <2>1. e \in Int /\ f \in Int /\ e * f <= 0 BY <1>2
  <2>2. RSub(RSub(<<k, 1>>, <<n, d>>), <<1, 2>>) = <<e, f>> BY <1>3, <1>5, <1>7
  <2> HIDE DEF e, f
  <2>3. /\ e * f \in Int /\ RSgn(<<e, f>>) \in Int
        /\ RSgn(<<e, f>>) < 0 <=> e * f < 0
        /\ RSgn(<<e, f>>) = 0 <=> e * f = 0
    BY <2>1, SignOfPair
  <2>4. RSgn(<<e, f>>) <= 0 BY <2>1, <2>3
  <2> QED BY <2>2, <2>4 DEF RLe
<1> QED BY <1>1, <1>2, <1>8, <1>9 DEF IsRound, RInt, k

THEOREM Truncations ==
  ASSUME NEW n \in Int, NEW d \in Int, d # 0
  PROVE  RTrunc(<<n, d>>) \in Int /\ IsTrunc(RTrunc(<<n, d>>), <<n, d>>)
<1> DEFINE N == NAbs(n)
<1> DEFINE D == NAbs(d)
<1> DEFINE q == N \div D
<1> DEFINE k == NQuot(n, d)
<1>1. N \in Nat /\ D \in Nat /\ D > 0 BY AbsSgn
<1>2. q \in Int /\ q * D <= N /\ N < q * D + D BY <1>1, DivBounds
<1>3. q >= 0
  <2>1. CASE q <= -1
    <3>1. (q + 1) * D <= 0 BY <2>1, <1>1, <1>2
    <3>2. (q + 1) * D = q * D + D BY <1>1, <1>2
    <3> QED BY <3>1, <3>2, <1>1, <1>2
  <2> QED BY <2>1, <1>2
<1>4. k = NSgn(n) * NSgn(d) * q BY DEF NQuot
<1>5. n = 0 => q = 0
  <2>1. n = 0 => N = 0 BY DEF NAbs
  <2>2. CASE q >= 1
    <3>1. q * D >= D BY <2>2, <1>1, <1>2
    <3> QED BY <3>1, <2>1, <1>1, <1>2
  <2> QED BY <2>2, <1>2, <1>3
<1> HIDE DEF q, k
<1>6. NSgn(n) \in {-1, 0, 1} /\ NSgn(d) \in {-1, 1} /\ (NSgn(n) = 0 <=> n = 0) BY DEF NSgn
<1>7. k \in Int /\ k \in {q, -q} BY <1>2, <1>4, <1>5, <1>6
<1>8. NAbs(k) = q BY <1>2, <1>3, <1>7 DEF NAbs
<1>9. NSgn(k) # 0 => NSgn(k) = RSgn(<<n, d>>)
  <2>1. RSgn(<<n, d>>) = NSgn(n) * NSgn(d) BY DEF RSgn
  <2>2. CASE NSgn(n) * NSgn(d) = 1
    <3>1. k = q BY <1>4, <1>2, <2>2
    <3> QED BY <3>1, <2>1, <2>2, <1>3, <1>2 DEF NSgn
  <2>3. CASE NSgn(n) * NSgn(d) = -1
    <3>1. k = -q BY <1>4, <1>2, <2>3
    <3> QED BY <3>1, <2>1, <2>3, <1>3, <1>2 DEF NSgn
  <2>4. CASE NSgn(n) * NSgn(d) = 0
    <3>1. k = 0 BY <1>4, <1>2, <2>4
    <3> QED BY <3>1 DEF NSgn
  <2> QED BY <2>2, <2>3, <2>4, <1>6
<1>10. RAbs(<<k, 1>>) = <<q, 1>> /\ RAbs(<<n, d>>) = <<N, D>> BY <1>8 DEF RAbs, NAbs
<1> HIDE DEF N, D
<1>11. RLe(<<q, 1>>, <<N, D>>)
  <2>1. (q * D - N) * D <= 0 BY <1>1, <1>2
  <2> QED BY <2>1, <1>1, <1>2, AgainstInteger
<1>12. RLt(RSub(<<N, D>>, <<q, 1>>), <<1, 1>>)
  <2>1. RSub(<<N, D>>, <<q, 1>>) = <<N * 1 - q * D, D * 1>> BY DEF RSub, NSub, NMul
  <2>2. N * 1 - q * D = N - q * D /\ D * 1 = D BY <1>1, <1>2
  <2> DEFINE m == N - q * D
  <2>3. m \in Int /\ m - 1 * D < 0 /\ m - 1 * D \in Int BY <1>1, <1>2
  <2>4. RSub(<<N, D>>, <<q, 1>>) = <<m, D>> BY <2>1, <2>2
  <2> HIDE DEF m
  <2>5. (m - 1 * D) * D < 0 BY <2>3, <1>1, SignRules
  <2> QED BY <2>3, <2>4, <2>5, <1>1, AgainstInteger
<1>13. RTrunc(<<n, d>>) = k BY DEF RTrunc, k
<1> QED BY <1>7, <1>9, <1>10, <1>11, <1>12, <1>13 DEF IsTrunc, RInt

(******************** Euclid's algorithm ***********************************)
LEMMA CommonDivisors ==
  ASSUME NEW a \in Int, NEW b \in Int, b # 0, NEW h \in Nat
  PROVE  Divides(h, a) /\ Divides(h, b) <=> Divides(h, b) /\ Divides(h, NRem(a, b))
<1> DEFINE q == NQuot(a, b)
<1> DEFINE r == NRem(a, b)
<1>1. q \in Int /\ r \in Int /\ r = a - b * q BY QuotRem
<1> HIDE DEF q, r
<1>2. ASSUME Divides(h, a), Divides(h, b) PROVE Divides(h, r)
  <2>1. PICK i \in Int : a = h * i BY <1>2 DEF Divides
  <2>2. PICK j \in Int : b = h * j BY <1>2 DEF Divides
  <2>3. r = h * i - (h * j) * q BY <1>1, <2>1, <2>2
  <2>4. h * i - (h * j) * q = h * (i - j * q) BY <1>1
  <2> QED BY <2>3, <2>4, <1>1 DEF Divides
<1>3. ASSUME Divides(h, b), Divides(h, r) PROVE Divides(h, a)
  <2>1. PICK i \in Int : r = h * i BY <1>3 DEF Divides
  <2>2. PICK j \in Int : b = h * j BY <1>3 DEF Divides
  <2>3. a = h * i + (h * j) * q
    <3>1. a = r + b * q BY <1>1
    <3> QED BY <3>1, <2>1, <2>2
  <2>4. h * i + (h * j) * q = h * (i + j * q) BY <1>1
  <2> QED BY <2>3, <2>4, <1>1 DEF Divides
<1> QED BY <1>2, <1>3 DEF r

LEMMA GcdStep ==
  ASSUME NEW a \in Int, NEW b \in Int, b # 0
  PROVE  NGcd(a, b) = NGcd(b, NRem(a, b))
<1> DEFINE r == NRem(a, b)
<1>1. \A h \in Nat : Divides(h, a) /\ Divides(h, b) <=> Divides(h, b) /\ Divides(h, r)
  BY CommonDivisors
<1> HIDE DEF r
<1> DEFINE P(g) == Divides(g, a) /\ Divides(g, b) /\ \A h \in Nat : Divides(h, a) /\ Divides(h, b) => h <= g
<1> DEFINE Q(g) == Divides(g, b) /\ Divides(g, r) /\ \A h \in Nat : Divides(h, b) /\ Divides(h, r) => h <= g
<1>2. \A g \in Nat : P(g) <=> Q(g) BY <1>1
<1>3. (CHOOSE g \in Nat : P(g)) = (CHOOSE g \in Nat : Q(g)) BY <1>2
<1> QED BY <1>3 DEF NGcd, r

LEMMA GcdZero ==
  ASSUME NEW a \in Int, a # 0
  PROVE  NGcd(a, 0) = NAbs(a)
<1>1. /\ NGcd(a, 0) \in Nat /\ Divides(NGcd(a, 0), a)
      /\ \A h \in Nat : Divides(h, a) /\ Divides(h, 0) => h <= NGcd(a, 0)
  BY GcdFacts
<1>2. NGcd(a, 0) <= NAbs(a) BY <1>1, DivisorBound
<1>3. NAbs(a) \in Nat BY AbsSgn
<1>4. Divides(NAbs(a), a)
  <2>1. a = NAbs(a) * NSgn(a) /\ NSgn(a) \in Int
    <3>1. NAbs(a) \in Int /\ NSgn(a) \in Int /\ NSgn(a) * NAbs(a) = a BY AbsSgn
    <3> QED BY <3>1
  <2> QED BY <2>1 DEF Divides
<1>5. Divides(NAbs(a), 0)
  <2>1. 0 = NAbs(a) * 0 BY <1>3
  <2> QED BY <2>1 DEF Divides
<1>6. NAbs(a) <= NGcd(a, 0) BY <1>1, <1>3, <1>4, <1>5
<1> QED BY <1>1, <1>2, <1>3, <1>6

\* Whatever obeys the two equations by which Num.tla defines the greatest
\* common divisor is the greatest common divisor.
THEOREM Euclid ==
  ASSUME NEW G(_, _),
         \A a \in Int : G(a, 0) = NAbs(a),
         \A a, b \in Int : b # 0 => G(a, b) = G(b, NRem(a, b))
  PROVE  \A a, b \in Int : a # 0 \/ b # 0 => G(a, b) = NGcd(a, b)
<1> DEFINE P(m) == \A a, b \in Int : NAbs(b) = m /\ (a # 0 \/ b # 0) => G(a, b) = NGcd(a, b)
<1>1. ASSUME NEW m \in Nat, \A k \in 0..(m-1) : P(k) PROVE P(m)
  <2> SUFFICES ASSUME NEW a \in Int, NEW b \in Int, NAbs(b) = m, a # 0 \/ b # 0
               PROVE G(a, b) = NGcd(a, b)
    OBVIOUS
  <2>1. CASE b = 0 BY <2>1, GcdZero
  <2>2. CASE b # 0
    <3> DEFINE r == NRem(a, b)
    <3>1. r \in Int /\ NAbs(r) < NAbs(b) BY <2>2, QuotRem
    <3>2. NAbs(r) \in 0..(m-1) BY <3>1, AbsSgn
    <3>3. G(b, r) = NGcd(b, r)
      <4>1. P(NAbs(r)) BY <3>2, <1>1
      <4> QED BY <4>1, <3>1, <2>2
    <3> QED BY <2>2, <3>3, GcdStep
  <2> QED BY <2>1, <2>2
<1> HIDE DEF P
<1>2. \A m \in Nat : P(m) BY <1>1, GeneralNatInduction, Isa
<1>3. \A b \in Int : NAbs(b) \in Nat BY AbsSgn
<1> QED BY <1>2, <1>3 DEF P

(******************** the remainder by its laws ****************************)
THEOREM Remainders ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int, d1 # 0, d2 # 0, n2 # 0
  PROVE  IsMod(Meaning("modulus", <<n1, d1>>, <<n2, d2>>), <<n1, d1>>, <<n2, d2>>)
<1> DEFINE X == n1 * d2
<1> DEFINE Y == d1 * n2
<1> DEFINE t == NQuot(X, Y)
<1> DEFINE r == NRem(X, Y)
<1> DEFINE f == d1 * d2
<1>0. X \in Int /\ Y \in Int /\ Y # 0 /\ f \in Int /\ f # 0 BY ProductZero
<1>1. /\ t \in Int /\ r = X - Y * t /\ r \in Int /\ NAbs(r) < NAbs(Y)
      /\ r # 0 => NSgn(r) = NSgn(X)
  BY <1>0, QuotRem
<1>2. n1 * d2 - n2 * t * d1 = r
  <2>1. n2 * t * d1 = (d1 * n2) * t BY <1>1
  <2> QED BY <2>1, <1>1
<1>3. Meaning("modulus", <<n1, d1>>, <<n2, d2>>) = <<r, f>> BY <1>2, ModMeaning
<1>4. RLt(RAbs(<<r, f>>), RAbs(<<n2, d2>>))
  <2> DEFINE R == NAbs(r)
  <2> DEFINE F == NAbs(f)
  <2> DEFINE N == NAbs(n2)
  <2> DEFINE D == NAbs(d2)
  <2> DEFINE E == NAbs(d1)
  <2>1. /\ R \in Nat /\ F \in Nat /\ F > 0 /\ N \in Nat /\ D \in Nat /\ D > 0 /\ E \in Nat
    BY <1>0, <1>1, AbsSgn
  <2>2. F = E * D /\ NAbs(Y) = E * N BY AbsMul
  <2>3. R < E * N BY <1>1, <2>2
  <2>4. RAbs(<<r, f>>) = <<R, F>> /\ RAbs(<<n2, d2>>) = <<N, D>> BY DEF RAbs
  <2> HIDE DEF R, F, N, D, E
  <2>5. RSub(<<R, F>>, <<N, D>>) = <<R * D - N * F, F * D>> BY DEF RSub, NSub, NMul
  <2>6. R * D - N * F = (R - E * N) * D
    <3>1. N * F = (E * N) * D BY <2>1, <2>2
    <3> QED BY <3>1, <2>1
  <2>7. (R - E * N) * D < 0
    <3>1. R - E * N < 0 /\ R - E * N \in Int BY <2>1, <2>3
    <3> QED BY <3>1, <2>1, SignRules
  <2> DEFINE u == R * D - N * F
  <2> DEFINE v == F * D
  <2>8. u \in Int /\ u < 0 /\ v \in Int /\ v > 0 BY <2>1, <2>6, <2>7
  <2> HIDE DEF u, v
  <2>9. u * v < 0 BY <2>8, SignRules
  <2>10. RSgn(<<u, v>>) < 0 BY <2>8, <2>9, SignOfPair
  <2> QED BY <2>4, <2>5, <2>10 DEF RLt, u, v
<1>5. RSgn(<<r, f>>) # 0 => RSgn(<<r, f>>) = RSgn(<<n1, d1>>)
  <2>1. RSgn(<<r, f>>) = NSgn(r) * NSgn(f) /\ RSgn(<<n1, d1>>) = NSgn(n1) * NSgn(d1) BY DEF RSgn
  <2>2. NSgn(f) = NSgn(d1) * NSgn(d2) /\ NSgn(X) = NSgn(n1) * NSgn(d2) BY SgnMul
  <2>3. CASE r = 0
    <3>1. NSgn(r) = 0 BY <2>3 DEF NSgn
    <3>2. NSgn(f) \in Int BY DEF NSgn
    <3> QED BY <2>1, <3>1, <3>2
  <2>4. CASE r # 0
    <3>1. NSgn(r) = NSgn(n1) * NSgn(d2) BY <2>4, <1>1, <2>2
    <3>2. NSgn(d1) \in {-1, 1} /\ NSgn(d2) \in {-1, 1} /\ NSgn(n1) \in {-1, 0, 1} BY DEF NSgn
    <3>3. NSgn(r) * NSgn(f) = NSgn(n1) * NSgn(d1) BY <3>1, <3>2, <2>2
    <3> QED BY <2>1, <3>3
  <2> QED BY <2>3, <2>4
<1>6. RIsInt(RDiv(RSub(<<n1, d1>>, <<r, f>>), <<n2, d2>>))
  <2> DEFINE P == (n1 * f - r * d1) * d2
  <2> DEFINE Q == (d1 * f) * n2
  <2>1. RDiv(RSub(<<n1, d1>>, <<r, f>>), <<n2, d2>>) = <<P, Q>>
    <3>1. RSub(<<n1, d1>>, <<r, f>>) = <<n1 * f - r * d1, d1 * f>> BY DEF RSub, NSub, NMul
    <3> QED BY <3>1 DEF RDiv, NMul
  <2>2. Q \in Int /\ Q # 0
    <3>1. d1 * f \in Int /\ d1 * f # 0 BY <1>0, ProductZero
    <3> QED BY <3>1, ProductZero
  <2>3. P = t * Q
    <3>1. n1 * f = d1 * X OBVIOUS
    <3>2. r * d1 = d1 * X - (d1 * Y) * t BY <1>1, <1>0
    <3>3. n1 * f - r * d1 = (d1 * Y) * t
      <4>1. d1 * X \in Int /\ (d1 * Y) * t \in Int BY <1>0, <1>1
      <4> QED BY <3>1, <3>2, <4>1
    <3>4. ((d1 * Y) * t) * d2 = t * ((d1 * Y) * d2) BY <1>0, <1>1
    <3>5. (d1 * Y) * d2 = Q OBVIOUS
    <3> QED BY <3>3, <3>4, <3>5
  <2> HIDE DEF P, Q
  <2>4. NQuot(t * Q, Q) = t BY <1>1, <2>2, QuotExact
  <2>5. NRem(P, Q) = P - Q * t BY <2>3, <2>4, <2>2, <1>1 DEF NRem
  <2>6. NRem(P, Q) = 0 BY <2>3, <2>5, <2>2, <1>1
  <2>7. NSgn(0) = 0 BY DEF NSgn
  <2> QED BY <2>1, <2>6, <2>7 DEF RIsInt
<1> HIDE DEF r, f
<1> QED BY <1>3, <1>4, <1>5, <1>6 DEF IsMod

(******************** values depend on values only *************************)
LEMMA RespectsZero ==
  ASSUME NEW n \in Int, NEW d \in Int, NEW m \in Int, NEW e \in Int, d # 0, e # 0, n * e = m * d
  PROVE  n = 0 <=> m = 0
  BY ProductZero

THEOREM Respects ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW m1 \in Int, NEW e1 \in Int, NEW m2 \in Int, NEW e2 \in Int,
         Same(<<n1, d1>>, <<m1, e1>>), Same(<<n2, d2>>, <<m2, e2>>), NEW op \in ArithOps
  PROVE  /\ Same(Meaning(op, <<n1, d1>>, <<n2, d2>>), Meaning(op, <<m1, e1>>, <<m2, e2>>))
         /\ Meaning(op, <<n1, d1>>, <<n2, d2>>) \in Int \X Int
<1> DEFINE a == <<n1, d1>>
<1> DEFINE b == <<n2, d2>>
<1> DEFINE p == <<m1, e1>>
<1> DEFINE q == <<m2, e2>>
<1>0. Same(Undefined, Undefined) /\ Undefined \in Int \X Int BY SameRefl DEF Undefined
<1>1. CASE d1 = 0 \/ d2 = 0
  <2>1. e1 = 0 \/ e2 = 0 BY <1>1, DefinedPair DEF Same
  <2>2. Meaning(op, a, b) = Undefined BY <1>1, DefinedPair DEF Meaning
  <2>3. Meaning(op, p, q) = Undefined BY <2>1, DefinedPair DEF Meaning
  <2> QED BY <1>0, <2>2, <2>3
<1>2. CASE d1 # 0 /\ d2 # 0
  <2>1. e1 # 0 /\ e2 # 0 BY <1>2, DefinedPair DEF Same
  <2>2. n1 * e1 = m1 * d1 /\ n2 * e2 = m2 * d2 BY <1>2, <2>1, DefinedPair DEF Same, REq, NEq, NMul
  <2>3. d1 * d2 # 0 /\ e1 * e2 # 0 BY <1>2, <2>1, ProductZero
  <2>s. /\ (n1 * d2 + n2 * d1) * (e1 * e2) = (m1 * e2 + m2 * e1) * (d1 * d2)
        /\ (n1 * d2 - n2 * d1) * (e1 * e2) = (m1 * e2 - m2 * e1) * (d1 * d2)
    <3>h. n1 * e1 = m1 * d1 BY <2>2
    <3>g. n2 * e2 = m2 * d2 BY <2>2
    <3>1. (n1 * d2) * (e1 * e2) = (m1 * e2) * (d1 * d2)
      <4>1. (n1 * d2) * (e1 * e2) = (n1 * e1) * (d2 * e2) OBVIOUS
      <4>2. (m1 * e2) * (d1 * d2) = (m1 * d1) * (d2 * e2) OBVIOUS
      <4> QED BY <4>1, <4>2, <3>h
    <3>2. (n2 * d1) * (e1 * e2) = (m2 * e1) * (d1 * d2)
      <4>1. (n2 * d1) * (e1 * e2) = (n2 * e2) * (d1 * e1) OBVIOUS
      <4>2. (m2 * e1) * (d1 * d2) = (m2 * d2) * (d1 * e1) OBVIOUS
      <4> QED BY <4>1, <4>2, <3>g
    <3> DEFINE x == n1 * d2
    <3> DEFINE y == n2 * d1
    <3> DEFINE u == m1 * e2
    <3> DEFINE v == m2 * e1
    <3> DEFINE f == e1 * e2
    <3> DEFINE g == d1 * d2
    <3>3. x \in Int /\ y \in Int /\ u \in Int /\ v \in Int /\ f \in Int /\ g \in Int /\ x * f = u * g /\ y * f = v * g
      BY <3>1, <3>2
    <3> HIDE DEF x, y, u, v, f, g
    <3>4. (x + y) * f = (u + v) * g /\ (x - y) * f = (u - v) * g
      <4>1. (x + y) * f = x * f + y * f /\ (x - y) * f = x * f - y * f BY <3>3
      <4>2. (u + v) * g = u * g + v * g /\ (u - v) * g = u * g - v * g BY <3>3
      <4> QED BY <4>1, <4>2, <3>3
    <3> QED BY <3>4 DEF x, y, u, v, f, g
  <2>4. CASE op = "plus"
    <3>1. Meaning(op, a, b) = <<n1 * d2 + n2 * d1, d1 * d2>>
      BY <2>4, <1>2, DefinedPair DEF Meaning, RAdd, NAdd, NMul
    <3>2. Meaning(op, p, q) = <<m1 * e2 + m2 * e1, e1 * e2>>
      BY <2>4, <2>1, DefinedPair DEF Meaning, RAdd, NAdd, NMul
    <3>3. (n1 * d2 + n2 * d1) * (e1 * e2) = (m1 * e2 + m2 * e1) * (d1 * d2) BY <2>s
    <3> QED BY <3>1, <3>2, <3>3, <2>3, DefinedPair DEF Same, REq, NEq, NMul
  <2>5. CASE op = "minus"
    <3>1. Meaning(op, a, b) = <<n1 * d2 - n2 * d1, d1 * d2>>
      BY <2>5, <1>2, DefinedPair DEF Meaning, RSub, NSub, NMul
    <3>2. Meaning(op, p, q) = <<m1 * e2 - m2 * e1, e1 * e2>>
      BY <2>5, <2>1, DefinedPair DEF Meaning, RSub, NSub, NMul
    <3>3. (n1 * d2 - n2 * d1) * (e1 * e2) = (m1 * e2 - m2 * e1) * (d1 * d2) BY <2>s
    <3> QED BY <3>1, <3>2, <3>3, <2>3, DefinedPair DEF Same, REq, NEq, NMul
  <2>6. CASE op = "times"
    <3>1. Meaning(op, a, b) = <<n1 * n2, d1 * d2>>
      BY <2>6, <1>2, DefinedPair DEF Meaning, RMul, NMul
    <3>2. Meaning(op, p, q) = <<m1 * m2, e1 * e2>>
      BY <2>6, <2>1, DefinedPair DEF Meaning, RMul, NMul
    <3>3. (n1 * n2) * (e1 * e2) = (m1 * m2) * (d1 * d2)
      <4>1. (n1 * n2) * (e1 * e2) = (n1 * e1) * (n2 * e2) OBVIOUS
      <4>2. (m1 * m2) * (d1 * d2) = (m1 * d1) * (m2 * d2) OBVIOUS
      <4> QED BY <4>1, <4>2, <2>2
    <3> QED BY <3>1, <3>2, <3>3, <2>3, DefinedPair DEF Same, REq, NEq, NMul
  <2>7. n2 = 0 <=> m2 = 0 BY <1>2, <2>1, <2>2, RespectsZero
  <2>8. CASE op \in {"divides", "modulus"} /\ n2 = 0
    <3>1. Meaning(op, a, b) = Undefined BY <2>8, DefinedPair, RSgnZero DEF Meaning
    <3>2. Meaning(op, p, q) = Undefined BY <2>7, <2>8, DefinedPair, RSgnZero DEF Meaning
    <3> QED BY <1>0, <3>1, <3>2
  <2>9. (n1 * d2) * (e1 * m2) = (m1 * e2) * (d1 * n2)
    <3>1. (n1 * d2) * (e1 * m2) = (n1 * e1) * (m2 * d2) OBVIOUS
    <3>2. (m1 * e2) * (d1 * n2) = (m1 * d1) * (n2 * e2) OBVIOUS
    <3> QED BY <3>1, <3>2, <2>2
  <2>10. CASE op = "divides" /\ n2 # 0
    <3>1. Meaning(op, a, b) = <<n1 * d2, d1 * n2>>
      BY <2>10, <1>2, DefinedPair, RSgnZero DEF Meaning, RDiv, NMul
    <3>2. Meaning(op, p, q) = <<m1 * e2, e1 * m2>>
      BY <2>7, <2>10, <2>1, DefinedPair, RSgnZero DEF Meaning, RDiv, NMul
    <3>3. d1 * n2 # 0 /\ e1 * m2 # 0 BY <1>2, <2>1, <2>7, <2>10, ProductZero
    <3> QED BY <3>1, <3>2, <3>3, <2>9, DefinedPair DEF Same, REq, NEq, NMul
  <2>11. CASE op = "modulus" /\ n2 # 0
    <3>0. d1 * n2 # 0 /\ e1 * m2 # 0 BY <1>2, <2>1, <2>7, <2>11, ProductZero
    <3> DEFINE t == NQuot(n1 * d2, d1 * n2)
    <3>1. Meaning(op, a, b) = <<n1 * d2 - n2 * t * d1, d1 * d2>> /\ t \in Int
      BY <2>11, <1>2, ModMeaning
    <3>2. Meaning(op, p, q) = <<m1 * e2 - m2 * NQuot(m1 * e2, e1 * m2) * e1, e1 * e2>>
      BY <2>7, <2>11, <2>1, ModMeaning
    <3>3. NQuot(m1 * e2, e1 * m2) = t
      <4>1. \A x, y, u, v \in Int : y # 0 /\ v # 0 /\ x * v = u * y => NQuot(x, y) = NQuot(u, v)
        BY QuotSame
      <4>2. n1 * d2 \in Int /\ d1 * n2 \in Int /\ m1 * e2 \in Int /\ e1 * m2 \in Int OBVIOUS
      <4> QED BY <4>1, <4>2, <3>0, <2>9
    <3> HIDE DEF t
    <3>4. (n2 * t) * e2 = (m2 * t) * d2
      <4>0. \A x, y, z \in Int : (x * y) * z = (x * z) * y OBVIOUS
      <4>1. (n2 * t) * e2 = (n2 * e2) * t /\ (m2 * t) * d2 = (m2 * d2) * t
        <5>1. t \in Int BY <3>1
        <5>2. (n2 * t) * e2 = (n2 * e2) * t BY <5>1, <4>0
        <5>3. (m2 * t) * d2 = (m2 * d2) * t BY <5>1, <4>0
        <5> QED BY <5>2, <5>3
      <4> QED BY <4>1, <2>2
    <3>6. (n1 * d2 - n2 * t * d1) * (e1 * e2) = (m1 * e2 - m2 * t * e1) * (d1 * d2)
      <4> DEFINE x == n2 * t
      <4> DEFINE y == m2 * t
      <4>1. x \in Int /\ y \in Int /\ x * e2 = y * d2 BY <3>1, <3>4
      <4>2. n1 * e1 = m1 * d1 BY <2>2
      <4> HIDE DEF x, y
      <4>3. (n1 * d2 - x * d1) * (e1 * e2) = (m1 * e2 - y * e1) * (d1 * d2)
        <5>1. (n1 * d2) * (e1 * e2) = (m1 * e2) * (d1 * d2)
          <6>1. (n1 * d2) * (e1 * e2) = (n1 * e1) * (d2 * e2) BY <4>1
          <6>2. (m1 * e2) * (d1 * d2) = (m1 * d1) * (d2 * e2) BY <4>1
          <6> QED BY <6>1, <6>2, <4>2
        <5>2. (x * d1) * (e1 * e2) = (y * e1) * (d1 * d2)
          <6>1. (x * d1) * (e1 * e2) = (x * e2) * (d1 * e1) BY <4>1
          <6>2. (y * e1) * (d1 * d2) = (y * d2) * (d1 * e1) BY <4>1
          <6> QED BY <6>1, <6>2, <4>1
        <5> DEFINE xx == n1 * d2
        <5> DEFINE yy == x * d1
        <5> DEFINE u == m1 * e2
        <5> DEFINE v == y * e1
        <5> DEFINE f == e1 * e2
        <5> DEFINE g == d1 * d2
        <5>3. xx \in Int /\ yy \in Int /\ u \in Int /\ v \in Int /\ f \in Int /\ g \in Int /\ xx * f = u * g /\ yy * f = v * g
          BY <5>1, <5>2, <4>1
        <5> HIDE DEF xx, yy, u, v, f, g
        <5>4. (xx + yy) * f = (u + v) * g /\ (xx - yy) * f = (u - v) * g
          <6>1. (xx + yy) * f = xx * f + yy * f /\ (xx - yy) * f = xx * f - yy * f BY <5>3
          <6>2. (u + v) * g = u * g + v * g /\ (u - v) * g = u * g - v * g BY <5>3
          <6> QED BY <6>1, <6>2, <5>3
        <5> QED BY <5>4 DEF xx, yy, u, v, f, g
      <4> QED BY <4>3 DEF x, y
    <3>7. n1 * d2 - n2 * t * d1 \in Int /\ m1 * e2 - m2 * t * e1 \in Int BY <3>1
    <3> QED BY <3>1, <3>2, <3>3, <3>6, <3>7, <2>3, DefinedPair DEF Same, REq, NEq, NMul
  <2> QED BY <2>4, <2>5, <2>6, <2>8, <2>10, <2>11 DEF ArithOps
<1> QED BY <1>1, <1>2

(******************** every policy, every form *****************************)
Modes3 == {"no", "ignore", "norm"}

LEMMA Closed ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in ArithOps \ {"modulus"}
  PROVE  /\ SafeFF(op, <<n1, d1>>, <<n2, d2>>).out \in Int \X Int
         /\ FastFF(op, <<n1, d1>>, <<n2, d2>>).out \in Int \X Int
<1>1. CASE op \in {"times", "divides"}
  <2>1. FastFF(op, <<n1, d1>>, <<n2, d2>>) = SafeFF(op, <<n1, d1>>, <<n2, d2>>) BY <1>1 DEF FastFF
  <2>2. CASE op = "times" BY <2>1, <2>2 DEF SafeFF, Res, NMul
  <2>3. CASE op = "divides" BY <2>1, <2>3 DEF SafeFF, Res, NMul, Undefined
  <2> QED BY <1>1, <2>2, <2>3
<1>2. CASE op \in {"plus", "minus"}
  <2>1. FastFF(op, <<n1, d1>>, <<n2, d2>>).out \in Int \X Int
    <3>1. CASE op = "plus" BY <3>1 DEF FastFF, Res, NMul, NAdd, NSub
    <3>2. CASE op = "minus" BY <3>2 DEF FastFF, Res, NMul, NAdd, NSub
    <3> QED BY <1>2, <3>1, <3>2
  <2>2. CASE d1 = 0 \/ d2 = 0
    BY <1>2, <2>1, <2>2, DefinedPair DEF SafeFF, Undefined, Res
  <2>3. CASE d1 # 0 /\ d2 # 0
    <3> DEFINE k == Lcm(d1, d2)
    <3>1. PICK p, q \in Int : k = p * d1 /\ k = q * d2 BY <2>3, LcmFacts
    <3>2. k \in Int /\ k > 0 BY <2>3, LcmFacts
    <3> HIDE DEF k
    <3>3. Scale(k, <<n1, d1>>) = p * n1 /\ Scale(k, <<n2, d2>>) = q * n2
      BY <3>1, <3>2, <2>3, Scaled
    <3>4. CASE op = "plus"
      <4>1. SafeFF(op, <<n1, d1>>, <<n2, d2>>).out = <<p * n1 + q * n2, k>>
        BY <3>4, <3>3, <2>3, DefinedPair DEF SafeFF, Res, NAdd, k
      <4> QED BY <4>1, <3>2, <2>1
    <3>5. CASE op = "minus"
      <4>1. SafeFF(op, <<n1, d1>>, <<n2, d2>>).out = <<p * n1 - q * n2, k>>
        BY <3>5, <3>3, <2>3, DefinedPair DEF SafeFF, Res, NSub, k
      <4> QED BY <4>1, <3>2, <2>1
    <3> QED BY <1>2, <3>4, <3>5
  <2> QED BY <2>2, <2>3
<1> QED BY <1>1, <1>2 DEF ArithOps

LEMMA ClosedWithInteger ==
  ASSUME NEW n \in Int, NEW d \in Int, NEW i \in Int, NEW op \in ArithOps \ {"modulus"}
  PROVE  /\ BaseFR(op, <<n, d>>, i).out \in Int \X Int
         /\ BaseRF(op, i, <<n, d>>).out \in Int \X Int
<1>1. CASE op = "plus" BY <1>1 DEF BaseRF, BaseFR, NAdd, NMul, Res
<1>2. CASE op = "minus" BY <1>2 DEF BaseRF, BaseFR, NSub, NMul, Res
<1>3. CASE op = "times" BY <1>3 DEF BaseRF, BaseFR, NMul, Res
<1>4. CASE op = "divides" BY <1>4 DEF BaseRF, BaseFR, NMul, Res, Undefined
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF ArithOps

LEMMA FastProducts ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in {"times", "divides"}
  PROVE  FastFF(op, <<n1, d1>>, <<n2, d2>>) = SafeFF(op, <<n1, d1>>, <<n2, d2>>)
  BY DEF FastFF

\* What a policy does once the inputs have been reduced.
Core(base, op, form, a, b) ==
  CASE form = "FF" -> IF base = "safe" THEN SafeFF(op, a, b) ELSE FastFF(op, a, b)
    [] form = "FR" -> BaseFR(op, a, b[1])
    [] form = "RF" -> BaseRF(op, a[1], b)

THEOREM Cores ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in ArithOps, NEW form \in Forms, NEW base \in {"safe", "fast"},
         form = "RF" => d1 = 1, form = "FR" => d2 = 1
  PROVE  LET o == Core(base, op, form, <<n1, d1>>, <<n2, d2>>).out
         IN /\ o \in Int \X Int
            /\ Same(o, Meaning(op, <<n1, d1>>, <<n2, d2>>))
<1> DEFINE a == <<n1, d1>>
<1> DEFINE b == <<n2, d2>>
<1>1. CASE form = "FF" /\ base = "safe"
  <2>1. Core(base, op, form, a, b) = SafeFF(op, a, b) BY <1>1 DEF Core
  <2>2. CASE op = "modulus" BY <2>1, <2>2, Modulus
  <2>3. CASE op \in {"plus", "minus"}
    <3>1. op \in ArithOps \ {"modulus"} BY <2>3 DEF ArithOps
    <3> QED BY <2>1, <2>3, <3>1, Closed, SafeSums
  <2>4. CASE op \in {"times", "divides"}
    <3>1. op \in ArithOps \ {"modulus"} BY <2>4 DEF ArithOps
    <3> QED BY <2>1, <2>4, <3>1, Closed, Products
  <2> QED BY <2>2, <2>3, <2>4 DEF ArithOps
<1>2. CASE form = "FF" /\ base = "fast"
  <2>1. Core(base, op, form, a, b) = FastFF(op, a, b) BY <1>2 DEF Core
  <2>2. CASE op = "modulus" BY <2>1, <2>2, Modulus
  <2>3. CASE op \in {"plus", "minus"}
    <3>1. op \in ArithOps \ {"modulus"} BY <2>3 DEF ArithOps
    <3> QED BY <2>1, <2>3, <3>1, Closed, FastSums
  <2>4. CASE op \in {"times", "divides"}
    <3>1. op \in ArithOps \ {"modulus"} BY <2>4 DEF ArithOps
    <3> QED BY <2>1, <2>4, <3>1, Closed, Products, FastProducts
  <2> QED BY <2>2, <2>3, <2>4 DEF ArithOps
<1>3. CASE form = "FR"
  <2>1. Core(base, op, form, a, b) = BaseFR(op, a, n2) /\ b = <<n2, 1>> BY <1>3 DEF Core
  <2>2. CASE op = "modulus" BY <2>1, <2>2, ModulusWithInteger
  <2>3. CASE op \in {"plus", "minus", "times", "divides"}
    <3>1. op \in ArithOps \ {"modulus"} BY <2>3 DEF ArithOps
    <3> QED BY <2>1, <2>3, <3>1, ClosedWithInteger, WithInteger
  <2> QED BY <2>2, <2>3 DEF ArithOps
<1>4. CASE form = "RF"
  <2>1. Core(base, op, form, a, b) = BaseRF(op, n1, b) /\ a = <<n1, 1>> BY <1>4 DEF Core
  <2>2. CASE op = "modulus" BY <2>1, <2>2, IntegerModulus
  <2>3. CASE op \in {"plus", "minus", "times", "divides"}
    <3>1. op \in ArithOps \ {"modulus"} BY <2>3 DEF ArithOps
    <3> QED BY <2>1, <2>3, <3>1, ClosedWithInteger, IntegerWith
  <2> QED BY <2>2, <2>3 DEF ArithOps
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Forms

\* An operand as the policy sees it.
Input(mode, form, own, x) == IF form = own THEN x ELSE ReduceMode(x, mode)

LEMMA Inputs ==
  ASSUME NEW n \in Int, NEW d \in Int, NEW mode \in Modes3, NEW form \in Forms, NEW own \in Forms,
         form = own => d = 1
  PROVE  \E m, e \in Int : /\ Input(mode, form, own, <<n, d>>) = <<m, e>>
                           /\ Same(<<m, e>>, <<n, d>>)
                           /\ form = own => e = 1
<1>1. CASE form = own BY <1>1, SameRefl DEF Input
<1>2. CASE form # own
  <2>1. Input(mode, form, own, <<n, d>>) = ReduceMode(<<n, d>>, mode) BY <1>2 DEF Input
  <2>2. ReduceMode(<<n, d>>, mode) \in Int \X Int /\ Same(ReduceMode(<<n, d>>, mode), <<n, d>>)
    BY Modes DEF Modes3
  <2>3. PICK m, e \in Int : ReduceMode(<<n, d>>, mode) = <<m, e>> BY <2>2
  <2> QED BY <1>2, <2>1, <2>2, <2>3
<1> QED BY <1>1, <1>2

THEOREM Policies ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in ArithOps, NEW form \in Forms,
         NEW base \in {"safe", "fast"}, NEW rin \in Modes3, NEW rout \in Modes3,
         form = "RF" => d1 = 1, form = "FR" => d2 = 1
  PROVE  LET pol == Pol(base, rin, rout)
             o == Apply(pol, op, form, <<n1, d1>>, <<n2, d2>>).out
         IN /\ o \in Int \X Int
            /\ Same(o, Meaning(op, <<n1, d1>>, <<n2, d2>>))
            /\ PromisedForm(pol, o)
<1> DEFINE a == <<n1, d1>>
<1> DEFINE b == <<n2, d2>>
<1> DEFINE pol == Pol(base, rin, rout)
<1>0. pol.base = base /\ pol.rin = rin /\ pol.rout = rout BY DEF Pol
<1> DEFINE ra == Input(rin, form, "RF", a)
<1> DEFINE rb == Input(rin, form, "FR", b)
<1> DEFINE c == Core(base, op, form, ra, rb)
<1>1. Apply(pol, op, form, a, b).out = ReduceMode(c.out, rout)
  <2> HIDE DEF pol
  <2> QED BY <1>0 DEF Apply, Core, Input, Res
<1>2. PICK m1, e1 \in Int : ra = <<m1, e1>> /\ Same(<<m1, e1>>, a) /\ (form = "RF" => e1 = 1)
  BY Inputs DEF Forms
<1>3. PICK m2, e2 \in Int : rb = <<m2, e2>> /\ Same(<<m2, e2>>, b) /\ (form = "FR" => e2 = 1)
  BY Inputs DEF Forms
<1>4. c.out \in Int \X Int /\ Same(c.out, Meaning(op, <<m1, e1>>, <<m2, e2>>))
  BY <1>2, <1>3, Cores
<1>5. /\ Same(Meaning(op, <<m1, e1>>, <<m2, e2>>), Meaning(op, a, b))
      /\ Meaning(op, <<m1, e1>>, <<m2, e2>>) \in Int \X Int
  BY <1>2, <1>3, Respects
<1>6. Meaning(op, a, b) \in Int \X Int
  <2>1. Same(a, a) /\ Same(b, b) BY SameRefl
  <2> QED BY <2>1, Respects
<1>7. PICK n \in Int, d \in Int : c.out = <<n, d>> BY <1>4
<1> HIDE DEF c, pol, ra, rb
<1>8. LET y == ReduceMode(<<n, d>>, rout)
      IN /\ y \in Int \X Int
         /\ Same(y, <<n, d>>)
         /\ d # 0 /\ rout # "no" => LowestTerms(y)
         /\ d # 0 /\ rout = "norm" => Canonical(y)
         /\ d = 0 /\ rout # "no" => y = Undefined
  BY Modes DEF Modes3
<1> DEFINE y == ReduceMode(<<n, d>>, rout)
<1>9. Apply(pol, op, form, a, b).out = y BY <1>1, <1>7
<1>10. Same(y, Meaning(op, a, b))
  <2>1. Same(<<n, d>>, Meaning(op, <<m1, e1>>, <<m2, e2>>)) BY <1>4, <1>7
  <2>2. Same(<<n, d>>, Meaning(op, a, b)) BY <2>1, <1>5, <1>6, SameTrans
  <2> QED BY <2>2, <1>8, <1>6, SameTrans
<1>11. PromisedForm(pol, y)
  <2>1. CASE rout = "no" BY <2>1, <1>0 DEF PromisedForm
  <2>2. CASE rout # "no" /\ d # 0
    <3>1. Defined(y) BY <2>2, <1>8 DEF LowestTerms
    <3> QED BY <2>2, <1>8, <1>0, <3>1 DEF PromisedForm, Modes3
  <2>3. CASE rout # "no" /\ d = 0
    <3>1. y = <<0, 0>> BY <2>3, <1>8 DEF Undefined
    <3>2. ~Defined(<<0, 0>>) BY DefinedPair
    <3>3. Identical(<<0, 0>>, Undefined) BY DEF Identical, Undefined, NEq
    <3> QED BY <2>3, <3>1, <3>2, <3>3, <1>0 DEF PromisedForm, Modes3
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>8, <1>9, <1>10, <1>11 DEF pol

(******************** comparisons under every policy ***********************)
THEOREM CmpRespects ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW m1 \in Int, NEW e1 \in Int, NEW m2 \in Int, NEW e2 \in Int,
         Same(<<n1, d1>>, <<m1, e1>>), Same(<<n2, d2>>, <<m2, e2>>), NEW op \in CmpOps
  PROVE  CmpMeaning(op, <<n1, d1>>, <<n2, d2>>) = CmpMeaning(op, <<m1, e1>>, <<m2, e2>>)
<1>1. CASE d1 = 0 \/ d2 = 0
  <2>1. e1 = 0 \/ e2 = 0 BY <1>1, DefinedPair DEF Same
  <2> QED BY <1>1, <2>1, DefinedPair DEF CmpMeaning
<1>2. CASE d1 # 0 /\ d2 # 0
  <2>1. e1 # 0 /\ e2 # 0 BY <1>2, DefinedPair DEF Same
  <2> DEFINE s == RSgn(RSub(<<n1, d1>>, <<n2, d2>>))
  <2> DEFINE t == RSgn(RSub(<<m1, e1>>, <<m2, e2>>))
  <2>2. /\ RSub(<<n1, d1>>, <<n2, d2>>) = <<n1 * d2 - n2 * d1, d1 * d2>>
        /\ RSub(<<m1, e1>>, <<m2, e2>>) = <<m1 * e2 - m2 * e1, e1 * e2>>
    BY DEF RSub, NSub, NMul
  <2>3. /\ Meaning("minus", <<n1, d1>>, <<n2, d2>>) = <<n1 * d2 - n2 * d1, d1 * d2>>
        /\ Meaning("minus", <<m1, e1>>, <<m2, e2>>) = <<m1 * e2 - m2 * e1, e1 * e2>>
    BY <2>2, <1>2, <2>1, DefinedPair DEF Meaning
  <2>4. Same(Meaning("minus", <<n1, d1>>, <<n2, d2>>), Meaning("minus", <<m1, e1>>, <<m2, e2>>))
    BY Respects DEF ArithOps
  <2> DEFINE e == n1 * d2 - n2 * d1
  <2> DEFINE f == d1 * d2
  <2> DEFINE g == m1 * e2 - m2 * e1
  <2> DEFINE h == e1 * e2
  <2>5. e \in Int /\ f \in Int /\ g \in Int /\ h \in Int OBVIOUS
  <2>6. f # 0 /\ h # 0 BY <1>2, <2>1, ProductZero
  <2>7. Same(<<e, f>>, <<g, h>>) BY <2>3, <2>4
  <2>8. s = NSgn(e) * NSgn(f) /\ t = NSgn(g) * NSgn(h) BY <2>2 DEF RSgn
  <2>9. CmpMeaning(op, <<n1, d1>>, <<n2, d2>>)
        = CASE op = "eq" -> s = 0 [] op = "ne" -> s # 0 [] op = "lt" -> s < 0
            [] op = "le" -> s <= 0 [] op = "gt" -> s > 0 [] op = "ge" -> s >= 0
    BY <1>2, DefinedPair DEF CmpMeaning
  <2>10. CmpMeaning(op, <<m1, e1>>, <<m2, e2>>)
        = CASE op = "eq" -> t = 0 [] op = "ne" -> t # 0 [] op = "lt" -> t < 0
            [] op = "le" -> t <= 0 [] op = "gt" -> t > 0 [] op = "ge" -> t >= 0
    BY <2>1, DefinedPair DEF CmpMeaning
  <2> HIDE DEF e, f, g, h, s, t
  <2>11. e * h = g * f BY <2>5, <2>6, <2>7, DefinedPair DEF Same, REq, NEq, NMul
  <2>12. NSgn(e) * NSgn(h) = NSgn(g) * NSgn(f) BY <2>5, <2>11, SgnMul
  <2>13. NSgn(f) \in {-1, 1} /\ NSgn(h) \in {-1, 1} /\ NSgn(e) \in {-1, 0, 1} /\ NSgn(g) \in {-1, 0, 1}
    BY <2>5, <2>6 DEF NSgn
  <2>14. NSgn(e) * NSgn(f) = NSgn(g) * NSgn(h) BY <2>12, <2>13
  <2> QED BY <2>8, <2>9, <2>10, <2>14
<1> QED BY <1>1, <1>2

LEMMA CmpSwap ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int
  PROVE  /\ CmpMeaning("gt", <<n1, d1>>, <<n2, d2>>) = CmpMeaning("lt", <<n2, d2>>, <<n1, d1>>)
         /\ CmpMeaning("ge", <<n1, d1>>, <<n2, d2>>) = CmpMeaning("le", <<n2, d2>>, <<n1, d1>>)
         /\ CmpMeaning("ne", <<n1, d1>>, <<n2, d2>>) = ~CmpMeaning("eq", <<n1, d1>>, <<n2, d2>>)
<1>1. CASE d1 = 0 \/ d2 = 0 BY <1>1, DefinedPair DEF CmpMeaning
<1>2. CASE d1 # 0 /\ d2 # 0
  <2> DEFINE s == RSgn(RSub(<<n1, d1>>, <<n2, d2>>))
  <2> DEFINE t == RSgn(RSub(<<n2, d2>>, <<n1, d1>>))
  <2> DEFINE e == n1 * d2 - n2 * d1
  <2> DEFINE g == n2 * d1 - n1 * d2
  <2> DEFINE f == d1 * d2
  <2>1. (s = 0 <=> e = 0) /\ (s < 0 <=> e * f < 0) /\ (s > 0 <=> e * f > 0) /\ s \in Int
    BY <1>2, SignOfDifference
  <2>2. (t = 0 <=> g = 0) /\ (t < 0 <=> g * (d2 * d1) < 0) /\ (t > 0 <=> g * (d2 * d1) > 0) /\ t \in Int
    BY <1>2, SignOfDifference
  <2>3. d2 * d1 = f /\ g = -e /\ e \in Int /\ f \in Int OBVIOUS
  <2>4. \A x, y \in Int : (-x) * y = -(x * y) OBVIOUS
  <2>5. CmpMeaning("gt", <<n1, d1>>, <<n2, d2>>) = (s > 0) /\ CmpMeaning("lt", <<n2, d2>>, <<n1, d1>>) = (t < 0)
    BY <1>2, DefinedPair DEF CmpMeaning
  <2>6. CmpMeaning("ge", <<n1, d1>>, <<n2, d2>>) = (s >= 0) /\ CmpMeaning("le", <<n2, d2>>, <<n1, d1>>) = (t <= 0)
    BY <1>2, DefinedPair DEF CmpMeaning
  <2>7. CmpMeaning("ne", <<n1, d1>>, <<n2, d2>>) = (s # 0) /\ CmpMeaning("eq", <<n1, d1>>, <<n2, d2>>) = (s = 0)
    BY <1>2, DefinedPair DEF CmpMeaning
  <2> HIDE DEF s, t, e, f, g
  <2>8. g * f = -(e * f) BY <2>3, <2>4
  <2>9. e * f \in Int BY <2>3
  <2>10. (s > 0 <=> t < 0) /\ (s >= 0 <=> t <= 0) BY <2>1, <2>2, <2>3, <2>8, <2>9
  <2> QED BY <2>5, <2>6, <2>7, <2>10
<1> QED BY <1>1, <1>2

LEMMA BaseComparisons ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in {"eq", "lt", "le"}, NEW form \in Forms, NEW base \in {"safe", "fast"}
  PROVE  BaseCmp(base, op, form, <<n1, d1>>, <<n2, d2>>).out
         = CmpMeaning(op, <<n1, d1>>, <<n2, d2>>)
<1>1. CASE base = "safe" /\ form = "FF" BY <1>1, SafeComparisons
<1>2. CASE ~(base = "safe" /\ form = "FF") BY <1>2, CrossComparisons
<1> QED BY <1>1, <1>2

THEOREM PolicyComparisons ==
  ASSUME NEW n1 \in Int, NEW d1 \in Int, NEW n2 \in Int, NEW d2 \in Int,
         NEW op \in CmpOps, NEW form \in Forms,
         NEW base \in {"safe", "fast"}, NEW rin \in Modes3, NEW rout \in Modes3,
         form = "RF" => d1 = 1, form = "FR" => d2 = 1
  PROVE  ApplyCmp(Pol(base, rin, rout), op, form, <<n1, d1>>, <<n2, d2>>).out
         = CmpMeaning(op, <<n1, d1>>, <<n2, d2>>)
<1> DEFINE a == <<n1, d1>>
<1> DEFINE b == <<n2, d2>>
<1> DEFINE pol == Pol(base, rin, rout)
<1>0. pol.base = base /\ pol.rin = rin /\ pol.rout = rout BY DEF Pol
<1> DEFINE ra == Input(rin, form, "RF", a)
<1> DEFINE rb == Input(rin, form, "FR", b)
<1>2. PICK m1, e1 \in Int : ra = <<m1, e1>> /\ Same(<<m1, e1>>, a) /\ (form = "RF" => e1 = 1)
  BY Inputs DEF Forms
<1>3. PICK m2, e2 \in Int : rb = <<m2, e2>> /\ Same(<<m2, e2>>, b) /\ (form = "FR" => e2 = 1)
  BY Inputs DEF Forms
<1>s. Swap(form) \in Forms BY DEF Swap, Forms
<1>1. ApplyCmp(pol, op, form, a, b).out
      = CASE op \in {"eq", "lt", "le"} -> BaseCmp(base, op, form, ra, rb).out
          [] op = "ne" -> ~BaseCmp(base, "eq", form, ra, rb).out
          [] op = "gt" -> BaseCmp(base, "lt", Swap(form), rb, ra).out
          [] op = "ge" -> BaseCmp(base, "le", Swap(form), rb, ra).out
  <2> HIDE DEF pol
  <2>1. CASE op \in {"eq", "lt", "le"} BY <2>1, <1>0 DEF ApplyCmp, Input, Res
  <2>2. CASE op = "ne" BY <2>2, <1>0 DEF ApplyCmp, Input, Res
  <2>3. CASE op = "gt" BY <2>3, <1>0 DEF ApplyCmp, Input, Res
  <2>4. CASE op = "ge" BY <2>4, <1>0 DEF ApplyCmp, Input, Res
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF CmpOps
<1> HIDE DEF pol, ra, rb
<1>4. CmpMeaning(op, <<m1, e1>>, <<m2, e2>>) = CmpMeaning(op, a, b)
  BY <1>2, <1>3, CmpRespects
<1>5. ApplyCmp(pol, op, form, a, b).out = CmpMeaning(op, <<m1, e1>>, <<m2, e2>>)
  <2>1. CASE op \in {"eq", "lt", "le"}
    <3>1. BaseCmp(base, op, form, <<m1, e1>>, <<m2, e2>>).out = CmpMeaning(op, <<m1, e1>>, <<m2, e2>>)
      BY <2>1, BaseComparisons
    <3> QED BY <2>1, <3>1, <1>1, <1>2, <1>3
  <2>2. CASE op = "ne"
    <3>1. BaseCmp(base, "eq", form, <<m1, e1>>, <<m2, e2>>).out = CmpMeaning("eq", <<m1, e1>>, <<m2, e2>>)
      BY BaseComparisons
    <3> QED BY <2>2, <3>1, <1>1, <1>2, <1>3, CmpSwap
  <2>3. CASE op = "gt"
    <3>1. BaseCmp(base, "lt", Swap(form), <<m2, e2>>, <<m1, e1>>).out = CmpMeaning("lt", <<m2, e2>>, <<m1, e1>>)
      BY <1>s, BaseComparisons
    <3> QED BY <2>3, <3>1, <1>1, <1>2, <1>3, CmpSwap
  <2>4. CASE op = "ge"
    <3>1. BaseCmp(base, "le", Swap(form), <<m2, e2>>, <<m1, e1>>).out = CmpMeaning("le", <<m2, e2>>, <<m1, e1>>)
      BY <1>s, BaseComparisons
    <3> QED BY <2>4, <3>1, <1>1, <1>2, <1>3, CmpSwap
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF CmpOps
<1> QED BY <1>4, <1>5 DEF pol
=============================================================================
