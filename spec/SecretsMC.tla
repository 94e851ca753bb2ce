----------------------------- MODULE SecretsMC -----------------------------
(* All histories of keys put in front, dropped and permuted, across restarts and crashes. *)
EXTENDS Secrets, TLC
CONSTANTS Keys, Ids, MaxLen
VARIABLES recs, up, keys, seen, front
vars == <<recs, up, keys, seen, front>>
\* recs: what's on disk; up: runs with keys; seen: clusters it knows; front: since when the first key is the first (records written before)
Lists == UNION {[1..n -> Keys \cup {0}] : n \in 0..MaxLen}
Init == recs = <<>> /\ up = FALSE /\ keys = <<>> /\ seen = {} /\ front = {}
Start(L) == /\ ~up /\ Accepts(L) /\ Readable(recs, L) = DOMAIN recs
            /\ up' = TRUE /\ keys' = L /\ seen' = DOMAIN recs
            /\ front' = IF keys # <<>> /\ keys[1] = L[1] THEN front ELSE DOMAIN recs
            /\ UNCHANGED recs
Create(n) == up /\ n \notin DOMAIN recs /\ recs' = (n :> Writes(keys)) @@ recs /\ seen' = seen \cup {n} /\ UNCHANGED <<up, keys, front>>
Expire(n) == up /\ n \in DOMAIN recs /\ recs' = [m \in DOMAIN recs \ {n} |-> recs[m]] /\ seen' = seen \ {n} /\ front' = front \ {n} /\ UNCHANGED <<up, keys>>
Stop == up /\ up' = FALSE /\ UNCHANGED <<recs, keys, seen, front>>
Next == (\E L \in Lists : Start(L)) \/ (\E n \in Ids : Create(n) \/ Expire(n)) \/ Stop
Spec == Init /\ [][Next]_vars
CanStart(L) == Accepts(L) /\ Readable(recs, L) = DOMAIN recs
Complete == up => seen = DOMAIN recs
\* new keys can always be put in front
Rotate == keys # <<>> => \A k \in Keys : CanStart(<<k>> \o keys)
\* and the old ones dropped once nothing is left that was written before
Drop == (keys # <<>> /\ front = {}) => CanStart(<<keys[1]>>)
\* no key, no secret
Sealed == \A L \in Lists : \A n \in Readable(recs, L) : \E k \in KeysOf(L) : k # 0 /\ recs[n] = k
Never == ~CanStart(<<>>) /\ ~CanStart(<<0>>)
=============================================================================
