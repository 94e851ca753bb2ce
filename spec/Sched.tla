------------------------------- MODULE Sched -------------------------------
(* What a scheduler of a cluster reports to its gateway, how it follows requests to scale and adapt,
   and when it asks to be shut down (C24).  Times in ms. *)
EXTENDS Integers, Sequences, FiniteSets
None == -1                                     \* no minimum, no maximum
Clamp(v, mn, mx) == LET a == IF mn # None /\ v < mn THEN mn ELSE v IN IF mx # None /\ a > mx THEN mx ELSE a
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Tail3(w, k) == IF Len(w) > k THEN SubSeq(w, Len(w) - k + 1, Len(w)) ELSE w
(* adaptive sizing: grows at once, shrinks to the most that was wanted of late *)
Window(win, v, k) == Tail3(Append(win, v), k)
Sized(size, win) == LET c == win[Len(win)]  m == Max({win[i] : i \in DOMAIN win}) IN
                    IF c > size THEN c ELSE IF m < size THEN m ELSE size
(* a request: [op, n] or [op, mn, mx, active]; s: [size, on, mn, mx, win] *)
Obey(s, r) == IF r.op = "scale" THEN [s EXCEPT !.size = r.n, !.on = FALSE]
              ELSE IF r.active THEN [s EXCEPT !.on = TRUE, !.mn = r.mn, !.mx = r.mx, !.win = <<>>]
              ELSE [s EXCEPT !.on = FALSE]
Adapted(s, v, k) == LET w == Window(s.win, Clamp(v, s.mn, s.mx), k) IN [s EXCEPT !.win = w, !.size = Sized(s.size, w)]
InBounds(s) == (s.mn # None => s.size >= s.mn) /\ (s.mx # None => s.size <= s.mx)
(* a report *)
Partition(active, closing, closed, live) == active \cup closing = live /\ active \cap closing = {} /\ closed \cap live = {}
(* a report that failed is repeated; the pauses double up to the period *)
Silent == 3600000
Period(p) == IF p = 0 THEN Silent ELSE p
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Pause(fails, p) == IF fails > 14 THEN Period(p) ELSE Min({250 * Pow(fails), Period(p)})
First(p) == IF p = 0 THEN Silent ELSE 250
NewsWithin == 3000
(* an idle cluster *)
MayShutDown(busy, last, timeout, now) == timeout > 0 /\ ~busy /\ now - last >= timeout
=============================================================================
