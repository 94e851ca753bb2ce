-------------------------------- MODULE LRU --------------------------------
(* A cache of at most cap entries that forgets the least recently used one.  The cache is a
   sequence of [k, v], the least recently used first.  Storing and finding both count as use. *)
EXTENDS Integers, Sequences
Keys(c) == {c[i].k : i \in 1..Len(c)}
Find(c, k) == CHOOSE i \in 1..Len(c) : c[i].k = k
Without(c, k) == SelectSeq(c, LAMBDA x : x.k # k)
Value(c, k) == IF k \in Keys(c) THEN c[Find(c, k)].v ELSE 0      \* 0: nothing
Get(c, k) == IF k \in Keys(c) THEN Append(Without(c, k), c[Find(c, k)]) ELSE c
Put(c, k, v, cap) ==
  LET n == Append(Without(c, k), [k |-> k, v |-> v])
  IN IF Len(n) > cap THEN SubSeq(n, Len(n) - cap + 1, Len(n)) ELSE n
Discard(c, k) == Without(c, k)
=============================================================================
