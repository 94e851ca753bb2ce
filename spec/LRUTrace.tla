------------------------------ MODULE LRUTrace ------------------------------
(* A trace: [cap, ops], an operation [op, k, v, got, size]: got = what was found (0: nothing),
   size = entries held afterwards. *)
EXTENDS LRU, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, c
vars == <<t, l, c>>
Tr == Traces[t].ops
ev == Tr[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ c = <<>>
After == CASE ev.op = "get" -> Get(c, ev.k) [] ev.op = "put" -> Put(c, ev.k, ev.v, Traces[t].cap) [] OTHER -> Discard(c, ev.k)
Q(b, what) == IF b THEN {} ELSE {what}
Why == Q(ev.op # "get" \/ ev.got = Value(c, ev.k), "the cache forgot a recently used entry, or kept one it should not")
       \cup Q(ev.size <= Traces[t].cap, "the cache holds more than its capacity")
       \cup Q(ev.size > Traces[t].cap \/ ev.size = Len(After), "the cache holds another number of entries than it should")
Verdict(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why]))
Step == /\ l \in 1..Len(Tr) /\ UNCHANGED t
        /\ IF Why = {} THEN l' = l + 1 /\ c' = After ELSE Verdict(FALSE, Why) /\ l' = 0 /\ UNCHANGED c
Accept == l = Len(Tr) + 1 /\ Verdict(TRUE, {}) /\ l' = 0 /\ UNCHANGED <<t, c>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
