---------------------------- MODULE SecretsTrace ----------------------------
(* The real gateway keeps secrets as Secrets says (C26).
   A trace: disk (database in a file), and events:
     start keys ok sees     a gateway starts with these keys (0: none proper) or refuses; sees: clusters it knows with the secrets they were given
     odd                    clusters it knows with other secrets than they were given
     new n / gone n         a cluster is created; its record expires
     stop                   the gateway stops or crashes
     probe keys ok sees odd as start, but on a copy of the file
     scan leaks             secrets found in clear in the files *)
EXTENDS Secrets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, recs, keys, bad
vars == <<t, l, recs, keys, bad>>
X == Traces[t]
Tr == X.events
ev == Tr[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ recs = <<>> /\ keys = <<>> /\ bad = {}
Q(b, what) == IF b THEN {} ELSE {[what |-> what, at |-> l]}
Range(q) == {q[i] : i \in DOMAIN q}
Opening ==
  LET all == DOMAIN recs  can == Readable(recs, ev.keys) IN
  IF ~X.disk THEN Q(ev.ok \/ (ev.keys # <<>> /\ ~Proper(ev.keys)), "a gateway without a database file does not start")
  ELSE IF ~Accepts(ev.keys) THEN Q(~ev.ok, "a gateway starts on disk without proper keys")
  ELSE Q(can # all \/ ev.ok, "records under configured keys are not readable")
       \cup Q(ev.ok => can \subseteq Range(ev.sees), "records under configured keys are not readable")
       \cup Q(Range(ev.sees) \subseteq can, "a record is readable without its key")
       \cup Q(can = all => ev.odd = <<>>, "secrets have changed")
Why ==
  CASE ev.e \in {"start", "probe"} -> Opening
    [] ev.e = "scan" -> Q(ev.leaks = <<>>, "secrets are stored in clear")
    [] OTHER -> {}
Apply ==
  CASE ev.e = "start" -> /\ keys' = IF ev.ok THEN ev.keys ELSE <<>>
                         /\ recs' = IF X.disk THEN recs ELSE <<>>
    [] ev.e = "new" -> recs' = (ev.n :> IF X.disk THEN Writes(keys) ELSE 0) @@ recs /\ UNCHANGED keys
    [] ev.e = "gone" -> recs' = [m \in DOMAIN recs \ {ev.n} |-> recs[m]] /\ UNCHANGED keys
    [] OTHER -> UNCHANGED <<recs, keys>>
Verdict == PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, at |-> l, why |-> bad]))
Step == bad = {} /\ l \in 1..Len(Tr) /\ UNCHANGED t /\ bad' = bad \cup Why /\ l' = (IF bad' = {} THEN l + 1 ELSE l) /\ Apply
Reject == bad # {} /\ l > 0 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, recs, keys, bad>>
Accept == bad = {} /\ l = Len(Tr) + 1 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, recs, keys, bad>>
Next == Step \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
