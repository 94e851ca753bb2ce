------------------------------ MODULE ClientMC ------------------------------
(* One cluster object: starting it, cancelling the start, closing it in several ways at once, on a gateway that may fail.
   Once: closing is done by one task, whoever asks for it; Patient: a cancelled submission is waited for;
   Lasting: closing goes on if whoever waits for it gives up. *)
EXTENDS Client
CONSTANTS Own, Attached, Closers, Once, Patient, Lasting, MaxFail
VARIABLES obj,     \* start: none/submitting/polling/up/failed, name: known
          srv,     \* phase of the cluster at the gateway, none if there is none
          closer,  \* each closer: idle/asked/stopping/done/gone
          kind,    \* what each closer asked for
          job,     \* the one task that closes: none/wait/delete/done
          verdict, sent, fails
vars == <<obj, srv, closer, kind, job, verdict, sent, fails>>
Init == /\ obj = [start |-> "none", name |-> Attached, cancelled |-> FALSE] /\ srv = IF Attached THEN "PENDING" ELSE "none"
        /\ closer = [c \in Closers |-> "idle"] /\ kind = [c \in Closers |-> "default"] /\ job = "none" /\ verdict = "open" /\ sent = 0 /\ fails = 0
U(x) == UNCHANGED x
Closing == job # "none" \/ \E c \in Closers : closer[c] # "idle"
Start == obj.start = "none" /\ ~Closing /\ obj' = [obj EXCEPT !.start = IF Attached THEN "polling" ELSE "submitting"]
         /\ U(<<srv, closer, kind, job, verdict, sent, fails>>)
Create == obj.start = "submitting" /\ srv = "none" /\ srv' = "PENDING" /\ U(<<obj, closer, kind, job, verdict, sent, fails>>)
Created == /\ obj.start = "submitting" /\ srv # "none"
           /\ obj' = [obj EXCEPT !.name = TRUE, !.start = IF obj.cancelled THEN "failed" ELSE "polling"]
           /\ U(<<srv, closer, kind, job, verdict, sent, fails>>)
Refuse == obj.start = "submitting" /\ srv = "none" /\ fails < MaxFail /\ fails' = fails + 1 /\ obj' = [obj EXCEPT !.start = "failed"]
          /\ U(<<srv, closer, kind, job, verdict, sent>>)
Server == \E p \in {"RUNNING", "FAILED", "STOPPED"} : srv = "PENDING" /\ srv' = p /\ U(<<obj, closer, kind, job, verdict, sent, fails>>)
Poll == obj.start = "polling" /\ srv # "PENDING" /\ obj' = [obj EXCEPT !.start = IF srv = "RUNNING" THEN "up" ELSE "failed"]
        /\ U(<<srv, closer, kind, job, verdict, sent, fails>>)
PollFails == obj.start = "polling" /\ fails < MaxFail /\ fails' = fails + 1 /\ obj' = [obj EXCEPT !.start = "failed"]
             /\ U(<<srv, closer, kind, job, verdict, sent>>)
Cancelled(o) == CASE o.start = "submitting" -> (IF Patient THEN [o EXCEPT !.cancelled = TRUE] ELSE [o EXCEPT !.start = "failed"])
                  [] o.start = "polling" -> [o EXCEPT !.start = "failed"] [] OTHER -> o
\* somebody closes the object: its user in a way of his choice, or a start that failed or was cancelled
Ask(c) == /\ closer[c] = "idle"
          /\ \E k \in {"default", "yes", "no"} :
                /\ kind' = [kind EXCEPT ![c] = k] /\ verdict' = Decide(verdict, k, Own)
          /\ obj' = Cancelled(obj) /\ closer' = [closer EXCEPT ![c] = "asked"] /\ U(<<srv, job, sent, fails>>)
Settled == obj.start \in {"none", "up", "failed"}
Begin(c) == closer[c] = "asked" /\ Settled
            /\ (IF Once THEN job = "none" /\ job' = "delete" /\ closer' = [closer EXCEPT ![c] = "waiting"] ELSE U(job) /\ closer' = [closer EXCEPT ![c] = "stopping"])
            /\ U(<<obj, srv, kind, verdict, sent, fails>>)
Join(c) == Once /\ closer[c] = "asked" /\ job # "none" /\ closer' = [closer EXCEPT ![c] = "waiting"] /\ U(<<obj, srv, kind, job, verdict, sent, fails>>)
Delete == Once /\ job = "delete" /\ job' = "done" /\ sent' = (IF verdict = "yes" /\ obj.name THEN sent + 1 ELSE sent)
          /\ srv' = (IF verdict = "yes" /\ obj.name THEN "STOPPED" ELSE srv) /\ U(<<obj, closer, kind, verdict, fails>>)
Again == Once /\ job = "done" /\ verdict = "yes" /\ sent = 0 /\ obj.name /\ job' = "delete" /\ U(<<obj, srv, closer, kind, verdict, sent, fails>>)
Own1(c) == IF kind[c] = "yes" \/ (kind[c] = "default" /\ Own) THEN TRUE ELSE FALSE
DeleteEach(c) == ~Once /\ closer[c] = "stopping" /\ closer' = [closer EXCEPT ![c] = "done"]
                 /\ sent' = (IF Own1(c) /\ obj.name THEN sent + 1 ELSE sent) /\ srv' = (IF Own1(c) /\ obj.name THEN "STOPPED" ELSE srv)
                 /\ U(<<obj, kind, job, verdict, fails>>)
Done(c) == closer[c] = "waiting" /\ job = "done" /\ ~ENABLED Again /\ closer' = [closer EXCEPT ![c] = "done"] /\ U(<<obj, srv, kind, job, verdict, sent, fails>>)
GiveUp(c) == closer[c] \in {"asked", "waiting", "stopping"} /\ fails < MaxFail /\ fails' = fails + 1 /\ closer' = [closer EXCEPT ![c] = "gone"]
             /\ job' = (IF Lasting THEN (IF job = "none" THEN "delete" ELSE job) ELSE IF job = "delete" THEN "done" ELSE job)
             /\ U(<<obj, srv, kind, verdict, sent>>)
DeleteReady == job = "delete" /\ Settled
Next == Start \/ Create \/ Created \/ Refuse \/ Server \/ Poll \/ PollFails \/ (DeleteReady /\ Delete) \/ Again
        \/ \E c \in Closers : Ask(c) \/ Begin(c) \/ Join(c) \/ DeleteEach(c) \/ Done(c) \/ GiveUp(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Create) /\ WF_vars(Created) /\ WF_vars(Server) /\ WF_vars(Poll) /\ WF_vars(DeleteReady /\ Delete) /\ WF_vars(Again)
        /\ WF_vars(\E c \in Closers : Begin(c)) /\ WF_vars(\E c \in Closers : Join(c)) /\ WF_vars(\E c \in Closers : DeleteEach(c)) /\ WF_vars(\E c \in Closers : Done(c))
AtMostOnce == sent <= 1
OnlyIfDecided == sent > 0 => verdict = "yes"
Stopped == [](\A c \in Closers : closer[c] = "asked" /\ verdict = "yes" => <>(sent > 0 \/ srv = "none"))
UpIsRunning == [][obj.start # "up" /\ obj'.start = "up" => srv = "RUNNING"]_vars
Answered == \A c \in Closers : (closer[c] = "asked") ~> (closer[c] \in {"done", "gone"})
=============================================================================
