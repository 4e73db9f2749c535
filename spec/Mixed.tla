------------------------------- MODULE Mixed --------------------------------
(***************************************************************************)
(* Mixed numbers: a whole part and a fractional part, kept in the normal   *)
(* form in which the fractional part is smaller than one in magnitude and  *)
(* the two never have opposite signs.  A mixed number is [w, f] with the   *)
(* whole part w and the fraction f; it is undefined when f is.             *)
(*                                                                         *)
(* What an operation denotes is below under "meaning"; the rest is how the *)
(* library computes it, as steps (Fold, Borrow), with the integers that    *)
(* must be representable: wide ones (of the whole part's representation)   *)
(* in "wm", those of the fractional part's in "fm".                        *)
(***************************************************************************)
EXTENDS Policy

Mix(w, f) == [w |-> w, f |-> f]
MDefined(m) == Defined(m.f)

(***************************** meaning *************************************)
MValue(m) == IF MDefined(m) THEN RAdd(RInt(m.w), m.f) ELSE Undefined
MNormal(m) == MDefined(m) => /\ RLt(RAbs(m.f), <<1, 1>>)
                             /\ NSgn(m.w) * RSgn(m.f) >= 0
\* the only normal mixed number of a value
MOf(v) == IF Defined(v) THEN Mix(RTrunc(v), RSub(v, RInt(RTrunc(v))))
                        ELSE Mix(0, Undefined)

\* An observed mixed number is right for the value v.
MRight(m, v) == /\ MDefined(m) = Defined(v)
                /\ Defined(v) => MNormal(m) /\ REq(MValue(m), v)

(***************************** computation *********************************)
Comp(m, wm, fm) == [m |-> m, wm |-> wm, fm |-> fm]

Folds(m) == MDefined(m) /\ ~QProper(m.f)
Fold(pol, m) ==
  LET t == RTrunc(m.f)
      x == Apply(pol, "minus", "FR", m.f, <<t, 1>>)
      w == NAdd(m.w, t)
  IN Comp(Mix(w, x.out), <<t, w>>, <<t>> \o x.mid \o x.out)

Borrows(m) == MDefined(m) /\ NSgn(m.w) * RSgn(m.f) < 0
Borrow(pol, m) ==
  LET s == NSgn(m.w)
      x == Apply(pol, "plus", "RF", <<s, 1>>, m.f)
      w == NSub(m.w, s)
  IN Comp(Mix(w, x.out), <<w>>, <<s>> \o x.mid \o x.out)

Then(c, next(_), cond(_)) ==
  IF ~cond(c.m) THEN c
  ELSE LET d == next(c.m) IN Comp(d.m, c.wm \o d.wm, c.fm \o d.fm)

\* From any whole and fractional part to the normal form.
Build(pol, w, f) ==
  Then(Then(Comp(Mix(w, f), <<w>>, f), LAMBDA m : Fold(pol, m), Folds),
       LAMBDA m : Borrow(pol, m), Borrows)

\* From a fraction of another representation: its integers are in "om".
FromFrac(pol, v) ==
  IF ~Defined(v)
  THEN [c |-> Comp(Mix(0, Undefined), <<>>, <<>>),
        om |-> Apply(pol, "minus", "FR", v, <<0, 1>>).mid]
  ELSE LET w == RTrunc(v)
           x == Apply(pol, "minus", "FR", v, <<w, 1>>)
       IN [c |-> Comp(Mix(w, x.out), <<w>>, x.out),
           om |-> <<w>> \o x.mid \o x.out]

ToFrac(pol, m) == Apply(pol, "plus", "RF", <<m.w, 1>>, m.f)

NegMixed(pol, m) ==
  LET x == ApplyNeg(pol, m.f)
      c == Build(pol, NNeg(m.w), x.out)
  IN Comp(c.m, c.wm, x.mid \o c.fm)

AddMixed(pol, a, b) ==
  LET x == Apply(pol, "plus", "FF", a.f, b.f)
      c == Build(pol, NAdd(a.w, b.w), x.out)
  IN Comp(c.m, c.wm, x.mid \o c.fm)

AddInt(pol, a, i) == Build(pol, NAdd(a.w, i), a.f)

CFits(c, wrep, frep) == AllFit(c.wm, RepMin(wrep), RepMax(wrep))
                        /\ AllFit(c.fm, RepMin(frep), RepMax(frep))
=============================================================================
