------------------------------- MODULE LRUMC -------------------------------
(* LRU with, next to it, the moment each key was last used: what is cached are always the
   most recently used keys of those stored and not discarded. *)
EXTENDS LRU, FiniteSets
CONSTANTS Ks, Vs, Caps, MaxOps
VARIABLES cap, c, used, stored, n
vars == <<cap, c, used, stored, n>>
Init == cap \in Caps /\ c = <<>> /\ used = [k \in Ks |-> 0] /\ stored = [k \in Ks |-> 0] /\ n = 0
Step(k) ==
  \/ /\ c' = Get(c, k) /\ used' = IF k \in Keys(c) THEN [used EXCEPT ![k] = n + 1] ELSE used
     /\ UNCHANGED stored
  \/ \E v \in Vs : c' = Put(c, k, v, cap) /\ used' = [used EXCEPT ![k] = n + 1] /\ stored' = [stored EXCEPT ![k] = v]
  \/ c' = Discard(c, k) /\ used' = [used EXCEPT ![k] = 0] /\ stored' = [stored EXCEPT ![k] = 0]
Next == n < MaxOps /\ n' = n + 1 /\ UNCHANGED cap /\ \E k \in Ks : Step(k)
Spec == Init /\ [][Next]_vars
Bounded == Len(c) <= cap
Unique == \A i, j \in 1..Len(c) : i # j => c[i].k # c[j].k
Latest == \A k \in Keys(c) : Value(c, k) = stored[k]
Ordered == \A i, j \in 1..Len(c) : i < j => used[c[i].k] < used[c[j].k]
EvictsOldest == [][\A k \in Keys(c) \ Keys(c') : used'[k] = 0 \/ \A j \in Keys(c') : used[k] < used'[j]]_vars
=============================================================================
