----------------------------- MODULE KubeViewMC -----------------------------
(* The gateway's view of one cluster resource: news queue up, one reader takes the newest in,
   fetching the credentials first if it has to; requests wait for progress. *)
EXTENDS KubeView, TLC
CONSTANTS MaxFail, MaxWait
VARIABLES srv,      \* [v, phase, named]
          secret,   \* at the server
          seen, dirty, job, cache, have, fails,
          waiter,   \* none, or how long it has waited, or the answer it got
          flag, stopAsked, active
vars == <<srv, secret, seen, dirty, job, cache, have, fails, waiter, flag, stopAsked, active>>
None == [v |-> 0, phase |-> "none", named |-> FALSE]
Init == srv = [None EXCEPT !.v = 1] /\ secret = FALSE /\ seen = None /\ dirty = FALSE /\ job = [on |-> FALSE] /\ cache = None /\ have = FALSE
        /\ fails = 0 /\ waiter = [st |-> "idle"] /\ flag = "unset" /\ stopAsked = FALSE /\ active = TRUE
Next_phase(p) == CASE p = "none" -> {"Pending", "Stopped", "gone"} [] p = "Pending" -> {"Running", "Stopped", "Failed", "gone"}
                   [] p = "Running" -> {"Stopped", "Failed", "gone"} [] p \in Over -> {"gone"} [] OTHER -> {}
Server == \E p \in Next_phase(srv.phase) :
            /\ p = "Stopped" => ~active
            /\ srv' = [v |-> srv.v + 1, phase |-> p, named |-> p = "Pending" \/ srv.named]
            /\ secret' = (p \in {"Pending", "Running"})
            /\ UNCHANGED <<seen, dirty, job, cache, have, fails, waiter, flag, stopAsked, active>>
See == seen # srv /\ seen' = srv /\ dirty' = TRUE /\ UNCHANGED <<srv, secret, job, cache, have, fails, waiter, flag, stopAsked, active>>
Take(v, h) == /\ cache' = (IF v.phase = "gone" THEN [v EXCEPT !.phase = "gone"] ELSE v) /\ have' = h
              /\ flag' = IF v.phase \in Done THEN "set" ELSE flag
Start == /\ dirty /\ ~job.on /\ dirty' = FALSE
         /\ IF NeedsRead(seen.phase, seen.named, have) THEN job' = [on |-> TRUE, v |-> seen] /\ UNCHANGED <<cache, have, flag>>
            ELSE Take(seen, have) /\ UNCHANGED job
         /\ UNCHANGED <<srv, secret, seen, fails, waiter, stopAsked, active>>
Read == /\ job.on /\ job' = [on |-> FALSE]
        /\ IF secret THEN Take(job.v, TRUE) /\ UNCHANGED dirty ELSE dirty' = TRUE /\ UNCHANGED <<cache, have, flag>>
        /\ UNCHANGED <<srv, secret, seen, fails, waiter, stopAsked, active>>
ReadFails == job.on /\ fails < MaxFail /\ fails' = fails + 1 /\ job' = [on |-> FALSE] /\ dirty' = TRUE
             /\ UNCHANGED <<srv, secret, seen, cache, have, waiter, flag, stopAsked, active>>
Ask == waiter.st = "idle" /\ waiter' = [st |-> "waiting", age |-> 0] /\ UNCHANGED <<srv, secret, seen, dirty, job, cache, have, fails, flag, stopAsked, active>>
Time == waiter.st = "waiting" /\ waiter.age < MaxWait /\ flag = "unset" /\ waiter' = [waiter EXCEPT !.age = @ + 1]
        /\ UNCHANGED <<srv, secret, seen, dirty, job, cache, have, fails, flag, stopAsked, active>>
Answer == waiter.st = "waiting" /\ (flag = "set" \/ waiter.age = MaxWait)
          /\ waiter' = [st |-> "answered", phase |-> cache.phase, age |-> waiter.age, right |-> have]
          /\ UNCHANGED <<srv, secret, seen, dirty, job, cache, have, fails, flag, stopAsked, active>>
Stop == ~stopAsked /\ cache.v > 0 /\ cache.phase \in Live /\ stopAsked' = TRUE /\ active' = FALSE
        /\ UNCHANGED <<srv, secret, seen, dirty, job, cache, have, fails, waiter, flag>>
Next == Server \/ See \/ Start \/ Read \/ ReadFails \/ Ask \/ Time \/ Answer \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(See) /\ WF_vars(Start) /\ WF_vars(Read) /\ WF_vars(Time) /\ WF_vars(Answer)
Ordered == cache.v <= seen.v /\ seen.v <= srv.v
Forward == [][cache.v <= cache'.v /\ seen.v <= seen'.v]_vars
WithCreds == cache.phase = "Running" => have
AnswersWell == waiter.st = "answered" /\ waiter.phase \notin Done => waiter.age = MaxWait
CatchesUp == <>[](cache.v = srv.v \/ ~secret)
CatchesUpWhenOver == <>[](srv.phase \in Over \cup {"gone"} => cache.v = srv.v)
Answered == (waiter.st = "waiting") ~> (waiter.st = "answered")
=============================================================================
