---------------------------- MODULE RateLimitMC ----------------------------
EXTENDS RateLimit, TLC
CONSTANTS Bs, Us, Horizon, MaxReq
VARIABLES b, u, now, asked, given, tokens, last
vars == <<b, u, now, asked, given, tokens, last>>
Init == /\ b \in Bs /\ u \in Us /\ now = 0 /\ asked = <<>> /\ given = <<>> /\ tokens = b * u /\ last = 0
Ask ==
  /\ Len(asked) < MaxReq
  /\ LET r == Take(tokens, now - last, b, u)
     IN /\ asked' = Append(asked, now) /\ given' = Append(given, now + r.delay)
        /\ tokens' = r.tokens /\ last' = now
  /\ UNCHANGED <<b, u, now>>
Tick == now < Horizon /\ now' = now + 1 /\ UNCHANGED <<b, u, asked, given, tokens, last>>
Next == Ask \/ Tick
Spec == Init /\ [][Next]_vars
Budget == InBudget(given, b, u)
Order == \A i \in 1..(Len(given) - 1) : given[i] <= given[i + 1]
\* the bucket grants exactly at the ideal moments
Exact == \A i \in 1..Len(given) : given[i] = Ideal(SubSeq(given, 1, i - 1), asked[i], b, u)
=============================================================================
