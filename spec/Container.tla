----------------------------- MODULE Container ------------------------------
(***************************************************************************)
(* What a user sees of an unordered container keyed by fractions: a map    *)
(* from values to what was stored, whatever form a key has when it is      *)
(* looked up.  Undefined keys equal nothing, not even themselves: every    *)
(* insertion of one succeeds and none is ever found.                       *)
(* A container is [map, lost]: map from canonical forms (as text) to       *)
(* values, lost the number of undefined keys in it.                        *)
(***************************************************************************)
EXTENDS Frac, TLC

Key(x) == ToString(Reduce(x))
Empty == [map |-> <<>>, lost |-> 0]
Size(c) == Cardinality(DOMAIN c.map) + c.lost
Has(c, x) == Defined(x) /\ Key(x) \in DOMAIN c.map
Insert(c, x, v) ==                        \* keeps what is there
  IF ~Defined(x) THEN [c EXCEPT !.lost = @ + 1]
  ELSE IF Has(c, x) THEN c
  ELSE [c EXCEPT !.map = (Key(x) :> v) @@ @]
Put(c, x, v) == IF ~Defined(x) THEN c ELSE [c EXCEPT !.map = (Key(x) :> v) @@ @]
Erase(c, x) ==
  IF Has(c, x)
  THEN [c EXCEPT !.map = [k \in DOMAIN @ \ {Key(x)} |-> @[k]]]
  ELSE c
Get(c, x) == c.map[Key(x)]
=============================================================================
