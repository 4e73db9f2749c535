---------------------------- MODULE MC_Container ----------------------------
(***************************************************************************)
(* A hash table refines Container when equal keys have equal hashes: for   *)
(* every hash function of a small set of values into two buckets, the      *)
(* table, which compares a key only with the keys of its bucket, and the   *)
(* container agree after every sequence of operations.  With a hash of the *)
(* form instead of the value they would not (ByForm).                      *)
(***************************************************************************)
EXTENDS Container
CONSTANTS Steps, ByForm

Keys == {<<1, 2>>, <<2, 4>>, <<-1, -2>>, <<1, -1>>, <<-2, 2>>, <<0, 3>>, <<1, 0>>}
Hashes == IF ByForm THEN [Keys -> {0, 1}]
          ELSE {h \in [Keys -> {0, 1}] : \A x, y \in Keys : Same(x, y) => h[x] = h[y]}

VARIABLES hash, table, c, n, agree
vars == <<hash, table, c, n, agree>>
Init == hash \in Hashes /\ table = {} /\ c = Empty /\ n = 0 /\ agree = TRUE

\* table: set of <<position, key, value>>; positions tell undefined keys apart
Match(x) == {e \in table : hash[e[2]] = hash[x] /\ Defined(x) /\ Same(e[2], x)}
Op(new, t, same) == /\ n < Steps /\ n' = n + 1
                    /\ c' = new /\ table' = t /\ agree' = same
                    /\ UNCHANGED hash
DoInsert(x) == Op(Insert(c, x, n),
                  IF Match(x) = {} THEN table \cup {<<n, x, n>>} ELSE table,
                  (Match(x) # {}) = Has(c, x))
DoErase(x) == Op(Erase(c, x), table \ Match(x), Cardinality(Match(x)) = (IF Has(c, x) THEN 1 ELSE 0))
DoPut(x) == Op(Put(c, x, n),
               IF ~Defined(x) THEN table
               ELSE (table \ Match(x)) \cup {<<n, x, n>>}, TRUE)
DoGet(x) == Has(c, x) /\ Op(c, table, \E e \in Match(x) : e[3] = Get(c, x))
Next == \E x \in Keys : DoInsert(x) \/ DoErase(x) \/ DoPut(x) \/ DoGet(x)

Agree == agree /\ Cardinality(table) = Size(c)
NoEqualKeys == \A e, f \in table : (e # f /\ Defined(e[2])) => ~Same(e[2], f[2])
=============================================================================
