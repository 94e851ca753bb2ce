----------------------------- MODULE RateLimit -----------------------------
(* A limiter of API calls with a budget: at most B + T/U permits in every window of length T
   (U ticks replenish one permit).

   Ideal states what the user relies on, without a mechanism: every request is granted at
   the earliest moment that keeps the order of requests and the budget in every window.  The
   token bucket of the implementation is modelled next to it (Bucket); RateLimitMC checks
   that the two agree and that the budget holds.

   A request that is cancelled while it waits keeps its place: its permit counts as given.  *)
EXTENDS Integers, Sequences

Max2(a, b) == IF a >= b THEN a ELSE b
RECURSIVE MaxOver(_, _)
MaxOver(S, low) == IF S = {} THEN low ELSE LET x == CHOOSE x \in S : TRUE IN MaxOver(S \ {x}, Max2(x, low))

(* given: the moments of all permits so far, in order; the next request arrives at a *)
Ideal(given, a, B, U) ==
  LET n == Len(given) + 1
      order == IF given = <<>> THEN a ELSE Max2(a, given[Len(given)])
      (* permits j..n are n-j+1 many, within a window of length g - given[j] *)
  IN MaxOver({given[j] + (n - j + 1 - B) * U : j \in 1..Len(given)}, order)

InBudget(given, B, U) ==
  \A j, k \in 1..Len(given) : j <= k => (k - j + 1 - B) * U <= given[k] - given[j]

(* the token bucket, counted in ticks: a permit costs U, at most B*U are held, debts are allowed *)
Take(tokens, elapsed, B, U) ==
  LET have == tokens + elapsed
      left == (IF have > B * U THEN B * U ELSE have) - U
  IN [tokens |-> left, delay |-> IF left < 0 THEN -left ELSE 0]
=============================================================================
