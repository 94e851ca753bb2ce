------------------------------ MODULE SchedMC ------------------------------
(* A scheduler, its workers, its reports (which fail, or are answered after more has happened) and
   requests to scale and adapt.  Sticky: news that comes while a report is on its way is remembered. *)
EXTENDS Sched
CONSTANTS W, Sizes, Fails, Cmds, Leaves, Sticky, K
VARIABLES live, ever, fresh,     \* workers; those that left; those that left since a report was accepted
          s,                     \* the size asked for, adaptive sizing
          wake,                  \* there is news to report
          out,                   \* the report on its way
          retiring, fails, cmds, leaves, told, demand, at
vars == <<live, ever, fresh, s, wake, out, retiring, fails, cmds, leaves, told, demand, at>>
Off == [on |-> FALSE]
Init == live = {} /\ ever = {} /\ fresh = {} /\ s = [size |-> 0, on |-> FALSE, mn |-> None, mx |-> None, win |-> <<>>] /\ wake = TRUE
        /\ out = Off /\ retiring = {} /\ fails = 0 /\ cmds = 0 /\ leaves = 0 /\ told = 0 /\ demand = 0 /\ at = FALSE
Busy == out.on \/ retiring # {}
News(x) == wake' = (wake \/ (x /\ (Sticky \/ ~Busy)))
Join(w) == w \notin live \cup ever /\ live' = live \cup {w} /\ News(Cardinality(live) + 1 > s.size)
           /\ UNCHANGED <<ever, fresh, s, out, retiring, fails, cmds, leaves, told, demand, at>>
Leave(w) == /\ w \in live /\ (w \in retiring \/ leaves < Leaves) /\ leaves' = (IF w \in retiring THEN leaves ELSE leaves + 1)
            /\ live' = live \ {w} /\ ever' = ever \cup {w} /\ fresh' = fresh \cup {w} /\ retiring' = retiring \ {w}
            /\ wake' = (wake \/ ((Sticky \/ ~Busy) /\ w \notin retiring))
            /\ UNCHANGED <<s, out, fails, cmds, told, demand, at>>
Set(t) == s' = t /\ News(t.size # s.size)
Scale(n) == cmds < Cmds /\ cmds' = cmds + 1 /\ Set(Obey(s, [op |-> "scale", n |-> n])) /\ at' = FALSE
            /\ UNCHANGED <<live, ever, fresh, out, retiring, fails, leaves, told, demand>>
Adapt(mn, mx) == cmds < Cmds /\ cmds' = cmds + 1 /\ Set(Obey(s, [op |-> "adapt", active |-> TRUE, mn |-> mn, mx |-> mx])) /\ at' = FALSE
                 /\ UNCHANGED <<live, ever, fresh, out, retiring, fails, leaves, told, demand>>
Eval == s.on /\ ~(at /\ s = Adapted(s, demand, K)) /\ Set(Adapted(s, demand, K)) /\ at' = TRUE
        /\ UNCHANGED <<live, ever, fresh, out, retiring, fails, cmds, leaves, told, demand>>
Demand(n) == cmds < Cmds /\ n # demand /\ demand' = n /\ cmds' = cmds + 1 /\ UNCHANGED <<live, ever, fresh, s, wake, out, retiring, fails, leaves, told, at>>
Closing == IF Cardinality(live) <= s.size THEN {{}} ELSE {C \in SUBSET live : Cardinality(live) - Cardinality(C) = s.size}
Post == /\ ~Busy /\ wake /\ wake' = FALSE
        /\ \E C \in Closing : out' = [on |-> TRUE, size |-> s.size, active |-> live \ C, closing |-> C, closed |-> fresh, live |-> live]
        /\ UNCHANGED <<live, ever, fresh, s, retiring, fails, cmds, leaves, told, demand, at>>
Accept == /\ out.on /\ out' = Off /\ told' = out.size /\ fresh' = fresh \ out.closed /\ retiring' = out.closing \cap live
          /\ UNCHANGED <<live, ever, s, wake, fails, cmds, leaves, demand, at>>
Lose == out.on /\ fails < Fails /\ fails' = fails + 1 /\ out' = Off /\ wake' = TRUE
        /\ UNCHANGED <<live, ever, fresh, s, retiring, cmds, leaves, told, demand, at>>
Next == (\E w \in W : Join(w) \/ Leave(w)) \/ (\E n \in Sizes : Scale(n) \/ Demand(n)) \/ (\E a, b \in Sizes : a <= b /\ Adapt(a, b))
        \/ Eval \/ Post \/ Accept \/ Lose
Spec == Init /\ [][Next]_vars /\ WF_vars(Post) /\ WF_vars(Accept) /\ WF_vars(Eval) /\ WF_vars(\E w \in W : w \in retiring /\ Leave(w))
Faithful == out.on => Partition(out.active, out.closing, out.closed, out.live) /\ (out.closing # {} => Cardinality(out.active) = out.size)
Kept == fresh \subseteq ever
Bounded == s.on /\ at => InBounds(s)
Told == <>[](told = s.size)                 \* what is asked for is reported, with no period to wait for
ClosedTold == <>[](Sticky => fresh = {} \/ wake = FALSE)
ScaleStops == [][s.on /\ s'.on => (s'.size # s.size => InBounds(s'))]_vars
=============================================================================
