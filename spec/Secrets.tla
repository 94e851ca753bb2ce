------------------------------ MODULE Secrets ------------------------------
(* Secrets of clusters in an on-disk database, and the keys they are encrypted with (C26).
   Keys are numbers > 0; what is no proper key is 0. A record remembers the key it was written with. *)
EXTENDS Integers, Sequences, FiniteSets
KeysOf(L) == {L[i] : i \in DOMAIN L}
Proper(L) == L # <<>> /\ 0 \notin KeysOf(L)
\* may a gateway start on disk with these keys?
Accepts(L) == Proper(L)
\* what it can read then
Readable(recs, L) == {n \in DOMAIN recs : recs[n] \in KeysOf(L)}
\* the key new records get
Writes(L) == L[1]
=============================================================================
