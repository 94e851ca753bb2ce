-------------------------- MODULE RateLimitTrace --------------------------
(* Permits given by the real rate limiter (or calls that arrived at an API server through it).
   A trace: [b, u, events], times in ticks.  Events:
     ask i at      the i-th request
     grant i at    its permit
     cancel i at   its caller went away
     call at       (through a limited client) a call arrived at the server: only the budget is judged
     end at *)
EXTENDS RateLimit, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, due, open
vars == <<t, l, due, open>>
Tr == Traces[t].events
b == Traces[t].b
u == Traces[t].u
ev == Tr[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ due = <<>> /\ open = {}
Q(c, what) == IF c THEN {} ELSE {what}
InBudgetAt(at) == \A j \in 1..Len(due) : (Len(due) + 1 - j + 1 - b) * u <= at - due[j]
Why ==
  CASE ev.e = "ask" -> {}
    [] ev.e = "grant" ->
         Q(ev.i \in open, "a permit nobody waits for")
         \cup Q(ev.i \notin open \/ ev.at >= due[ev.i], "a permit beyond the budget, or out of order")
         \cup Q(ev.i \notin open \/ ev.at <= due[ev.i], "a caller was delayed longer than needed")
         \cup Q(\A j \in open : j >= ev.i \/ due[j] >= ev.at, "permits out of order")
    [] ev.e = "call" -> Q(InBudgetAt(ev.at), "more calls than the budget allows")
    [] ev.e = "end" -> Q(\A i \in open : due[i] > ev.at, "a caller was delayed longer than needed")
    [] OTHER -> {}
Verdict(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why]))
Apply ==
  CASE ev.e = "ask" -> due' = Append(due, Ideal(due, ev.at, b, u)) /\ open' = open \cup {ev.i}
    [] ev.e \in {"grant", "cancel"} -> open' = open \ {ev.i} /\ UNCHANGED due
    [] ev.e = "call" -> due' = Append(due, ev.at) /\ UNCHANGED open
    [] OTHER -> UNCHANGED <<due, open>>
Step == /\ l \in 1..Len(Tr) /\ UNCHANGED t
        /\ IF Why = {} THEN l' = l + 1 /\ Apply ELSE Verdict(FALSE, Why) /\ l' = 0 /\ UNCHANGED <<due, open>>
Accept == l = Len(Tr) + 1 /\ Verdict(TRUE, {}) /\ l' = 0 /\ UNCHANGED <<t, due, open>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
