------------------------------ MODULE NumSelf ------------------------------
(***************************************************************************)
(* What the other modules compute with is what Num.tla defines.            *)
(*                                                                         *)
(* NumPlain is a copy of Num.tla under another name (made by the check),   *)
(* which TLC therefore evaluates as written; the operators of Num itself   *)
(* are replaced by java/Num.java.  The two are compared on every pair of   *)
(* small numbers.  On numbers beyond 32 bits only the replacement can      *)
(* compute; there it must obey the laws that determine each operator       *)
(* (ring laws, the division laws, the universal property of the greatest   *)
(* common divisor), and agree with the 32-bit world across its boundary.   *)
(***************************************************************************)
EXTENDS Num, Sequences, TLC

P == INSTANCE NumPlain

CONSTANTS K,          \* the bound of the small numbers
          E           \* the exponents of the large ones

VARIABLES x, y, big

\* A small number, or one close to a power of two or to its negation: a
\* state holds how the number is made, as TLC cannot compare its two forms.
Small == {<<i>> : i \in -K..K}
Large == {<<s, e, d>> : s \in {-1, 1}, e \in E, d \in {-1, 0, 1}}
Number(z) == IF Len(z) = 1 THEN z[1] ELSE NMul(z[1], NAdd(NPow(2, z[2]), z[3]))
a == Number(x)
b == Number(y)

Init == \/ big = FALSE /\ x \in Small /\ y \in Small
        \/ big = TRUE /\ x \in Large /\ y \in Large
        \/ big = TRUE /\ x \in Large /\ y \in {<<i>> : i \in {0, 1, -1, 7, -10}}
Next == UNCHANGED <<x, y, big>>
Spec == Init /\ [][Next]_<<x, y, big>>

\* The same value of the same kind.
Same(p, q) == ToString(p) = ToString(q)

(************************ where both can be evaluated **********************)
Agree == ~big =>
  /\ NNorm(a) = P!NNorm(a)
  /\ NAdd(a, b) = P!NAdd(a, b)
  /\ NSub(a, b) = P!NSub(a, b)
  /\ NMul(a, b) = P!NMul(a, b)
  /\ NNeg(a) = P!NNeg(a)
  /\ NAbs(a) = P!NAbs(a)
  /\ NSgn(a) = P!NSgn(a)
  /\ NLt(a, b) = P!NLt(a, b)
  /\ NLe(a, b) = P!NLe(a, b)
  /\ NEq(a, b) = P!NEq(a, b)
  /\ \A c \in {-K, -1, 0, 2} : NIn(a, c, b) = P!NIn(a, c, b)
  /\ b # 0 => /\ NFloorDiv(a, b) = P!NFloorDiv(a, b)
              /\ NQuot(a, b) = P!NQuot(a, b)
              /\ NRem(a, b) = P!NRem(a, b)
  /\ NGcd(a, b) = P!NGcd(a, b)
  /\ b \in 0..6 => (K > 20 /\ NAbs(a) > 20) \/ NPow(a, b) = P!NPow(a, b)

(**************************** where only one can ***************************)
\* One normal form: equal numbers are equal values.
Normal == /\ Same(NNorm(a), a)
          /\ NEq(a, b) <=> Same(a, b)
          /\ Same(NSub(NAdd(a, b), b), a)
          /\ Same(NAdd(NSub(a, b), b), a)

Ring == /\ Same(NAdd(a, b), NAdd(b, a))
        /\ Same(NMul(a, b), NMul(b, a))
        /\ Same(NAdd(a, 0), a) /\ Same(NMul(a, 1), a) /\ NMul(a, 0) = 0
        /\ NAdd(a, NNeg(a)) = 0
        /\ Same(NSub(a, b), NAdd(a, NNeg(b)))
        /\ \A i \in 1..3 :
             LET c == <<-3, 2147483647, NPow(2, 64)>>[i]
             IN /\ Same(NMul(a, NAdd(b, c)), NAdd(NMul(a, b), NMul(a, c)))
                /\ Same(NAdd(a, NAdd(b, c)), NAdd(NAdd(a, b), c))
                /\ Same(NMul(a, NMul(b, c)), NMul(NMul(a, b), c))

Order == /\ NSgn(a) \in {-1, 0, 1}
         /\ NSgn(NNeg(a)) = -NSgn(a)
         /\ NSgn(NMul(a, b)) = NSgn(a) * NSgn(b)
         /\ NLt(a, b) <=> NSgn(NSub(a, b)) < 0
         /\ NLe(a, b) <=> NSgn(NSub(a, b)) <= 0
         /\ NLt(a, NAdd(a, 1))
         /\ Same(NAbs(a), IF NSgn(a) < 0 THEN NNeg(a) ELSE a)
         /\ NIn(a, b, NAdd(b, 5)) <=> NLe(b, a) /\ NLe(a, NAdd(b, 5))

Division == NSgn(b) # 0 =>
  LET q == NQuot(a, b)  r == NRem(a, b)  f == NFloorDiv(a, b)
      m == NSub(a, NMul(b, f))
  IN /\ Same(a, NAdd(NMul(b, q), r))
     /\ NLt(NAbs(r), NAbs(b))
     /\ NSgn(r) \in {0, NSgn(a)}
     /\ NLt(NAbs(m), NAbs(b))
     /\ NSgn(m) \in {0, NSgn(b)}

Divides(p, q) == IF NSgn(p) = 0 THEN NSgn(q) = 0 ELSE NSgn(NRem(q, p)) = 0
Gcd == LET g == NGcd(a, b)
       IN /\ NSgn(g) >= 0
          /\ Divides(g, a) /\ Divides(g, b)
          \* Euclid's step, so by induction the greatest
          /\ NSgn(b) # 0 => Same(g, NGcd(b, NRem(a, b)))
          /\ NSgn(b) = 0 => Same(g, NAbs(a))

Power == \A e \in 0..4 : /\ NPow(a, 0) = 1
                         /\ Same(NPow(a, e + 1), NMul(a, NPow(a, e)))

\* The boundary between the two forms of a number.
Boundary == /\ NAdd(2147483647, 1) = "2147483648"
            /\ NSub("2147483648", 1) = 2147483647
            /\ NSub(-2147483647, 2) = "-2147483649"
            /\ NNeg("2147483648") = NSub(-2147483647, 1)
            /\ NPow(2, 64) = "18446744073709551616"
            /\ NNorm("17") = 17
=============================================================================
