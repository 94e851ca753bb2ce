------------------------------ MODULE Informer ------------------------------
(* A local copy of the objects of an API server, kept by listing and watching.

   Versions are numbers that grow with every change; 0 stands for absent.  The consumer hears
   of every change of the copy: Update(n, v) or Delete(n).  What it was told (told: name -> version)
   is always what is cached. *)
EXTENDS Integers, Sequences, FiniteSets
Get(f, n) == IF n \in DOMAIN f THEN f[n] ELSE 0
Live(f) == {n \in DOMAIN f : f[n] # 0}
Same(f, g) == Live(f) = Live(g) /\ \A n \in Live(f) : f[n] = g[n]
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
(* hist: name -> sequence of [v, del], what happened to the name at the server *)
Existed(hist, n, v) == n \in DOMAIN hist /\ \E i \in 1..Len(hist[n]) : hist[n][i].v = v /\ ~hist[n][i].del
Removed(hist, n, after) == n \in DOMAIN hist /\ \E i \in 1..Len(hist[n]) : hist[n][i].v > after /\ hist[n][i].del
(* the newest thing the consumer may have heard of n: mark >= the version cached *)
MayTellUpdate(told, mark, hist, n, v) == Existed(hist, n, v) /\ v >= Get(mark, n)
MayTellDelete(told, hist, n) == Get(told, n) # 0 /\ Removed(hist, n, told[n])
=============================================================================
