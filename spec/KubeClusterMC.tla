---------------------------- MODULE KubeClusterMC ----------------------------
(* The phase handlers against a server: news of the cluster and of the scheduler pod arrive
   late and independently; every request may fail, before or after it took effect; the
   controller may restart.  One cluster.  Guarded: a status is only written if the cluster is
   still as the controller saw it when it decided (without that, Moves fails: a view that lags
   makes a phase go back -- KubeClusterOld.cfg). *)
EXTENDS KubeCluster, TLC
CONSTANTS MaxFault, MaxAge, Guarded
VARIABLES cl,      \* server: [phase, active, named, fin, there]  (named: the status names pod and secret)
          cv,      \* the same as the controller sees it
          sched, sv, \* scheduler pod: none pending running done gone; as seen ("none": not seen yet)
          secret, made, ready,
          job,     \* the reconciliation under way: a program of steps, on the view it started from
          faults, clock
vars == <<cl, cv, sched, sv, secret, made, ready, job, faults, clock>>
NoJob == [todo |-> "none", step |-> 0, view |-> 0]
Init == /\ cl = [phase |-> "none", active |-> TRUE, named |-> FALSE, fin |-> -1, first |-> -1, there |-> TRUE]
        /\ cv = cl /\ sched = "none" /\ sv = "none" /\ secret = "none" /\ made = {} /\ ready = FALSE
        /\ job = NoJob /\ faults = 0 /\ clock = 0
U(x) == UNCHANGED x
(* ---- what the controller decides from its view *)
Plan ==
  IF cv.phase \in Over THEN "none"
  ELSE IF ~cv.active THEN "stop"
  ELSE IF cv.phase \in {"none", "Pending"} THEN
       (IF ~cv.named THEN "create"
        ELSE IF sv \in {"done", "gone"} THEN "fail"
        ELSE IF sv = "running" THEN "expose"
        ELSE IF sv = "none" /\ sched = "gone" THEN "fail" ELSE "none")        \* looked up
  ELSE IF sv \in {"done", "gone"} THEN "fail" ELSE "none"
Decide == job = NoJob /\ Plan # "none" /\ job' = [todo |-> Plan, step |-> 1, view |-> cv] /\ UNCHANGED <<cl, cv, sched, sv, secret, made, ready, faults, clock>>
GiveUp == job' = NoJob
(* a request fails without effect *)
Fails == job # NoJob /\ faults < MaxFault /\ faults' = faults + 1 /\ GiveUp /\ UNCHANGED <<cl, cv, sched, sv, secret, made, ready, clock>>
(* the response is lost: the effect is there, the job ends *)
Continue(n) == \/ job' = [job EXCEPT !.step = n] /\ UNCHANGED faults
               \/ faults < MaxFault /\ faults' = faults + 1 /\ GiveUp
Patch(new) == cl' = IF cl.there /\ (~Guarded \/ job.view = cl) THEN new ELSE cl
Create ==
  /\ job.todo = "create"
  /\ \/ job.step = 1 /\ secret' = (IF secret = "none" THEN "there" ELSE secret) /\ Continue(2) /\ UNCHANGED <<cl, cv, sched, sv, made, ready, clock>>
     \/ job.step = 2 /\ sched' = (IF sched \in {"none", "gone"} THEN "pending" ELSE sched) /\ Continue(3) /\ UNCHANGED <<cl, cv, sv, secret, made, ready, clock>>
     \/ job.step = 3 /\ Patch([cl EXCEPT !.phase = "Pending", !.named = TRUE]) /\ GiveUp
        /\ UNCHANGED <<cv, sched, sv, secret, made, ready, faults, clock>>
Expose ==
  /\ job.todo = "expose"
  /\ \/ job.step = 1 /\ made' = made \cup {"service"} /\ Continue(IF ready THEN 2 ELSE 5) /\ UNCHANGED <<cl, cv, sched, sv, secret, ready, clock>>
     \/ job.step = 2 /\ made' = made \cup {"route"} /\ Continue(3) /\ UNCHANGED <<cl, cv, sched, sv, secret, ready, clock>>
     \/ job.step = 3 /\ made' = made \cup {"tcproute"} /\ Continue(4) /\ UNCHANGED <<cl, cv, sched, sv, secret, ready, clock>>
     \/ job.step = 4 /\ Patch([cl EXCEPT !.phase = "Running"]) /\ GiveUp /\ UNCHANGED <<cv, sched, sv, secret, made, ready, faults, clock>>
     \/ job.step = 5 /\ GiveUp /\ UNCHANGED <<cl, cv, sched, sv, secret, made, ready, faults, clock>>
Finish ==
  /\ job.todo \in {"stop", "fail"}
  /\ \/ job.step = 1 /\ sched' = (IF sched \in {"pending", "running", "done"} THEN "gone" ELSE sched) /\ Continue(2)
        /\ UNCHANGED <<cl, cv, sv, secret, made, ready, clock>>
     \/ job.step = 2 /\ secret' = (IF secret = "there" THEN "gone" ELSE secret) /\ Continue(3) /\ UNCHANGED <<cl, cv, sched, sv, made, ready, clock>>
     \/ job.step = 3 /\ Patch([cl EXCEPT !.phase = IF job.todo = "stop" THEN "Stopped" ELSE "Failed", !.fin = clock, !.first = IF @ < 0 THEN clock ELSE @]) /\ GiveUp
        /\ UNCHANGED <<cv, sched, sv, secret, made, ready, faults, clock>>
(* the expiry of finished clusters *)
Drop == cv.there /\ cl.there /\ cv.phase \in Over /\ clock - cv.fin >= 2 /\ cl' = [cl EXCEPT !.there = FALSE]
        /\ UNCHANGED <<cv, sched, sv, secret, made, ready, job, faults, clock>>
(* the world *)
SeeCluster == cv # cl /\ cv' = cl /\ UNCHANGED <<cl, sched, sv, secret, made, ready, job, faults, clock>>
SeeSched == sv # sched /\ sv' = sched /\ UNCHANGED <<cl, cv, sched, secret, made, ready, job, faults, clock>>
PodRuns == sched = "pending" /\ sched' = "running" /\ UNCHANGED <<cl, cv, sv, secret, made, ready, job, faults, clock>>
PodDies == sched \in {"pending", "running"} /\ faults < MaxFault /\ faults' = faults + 1 /\ sched' \in {"done", "gone"}
           /\ UNCHANGED <<cl, cv, sv, secret, made, ready, job, clock>>
Ready == "service" \in made /\ ready' = ~ready /\ (ready => faults < MaxFault) /\ faults' = (IF ready THEN faults + 1 ELSE faults)
         /\ UNCHANGED <<cl, cv, sched, sv, secret, made, job, clock>>
Deactivate == cl.active /\ cl' = [cl EXCEPT !.active = FALSE] /\ UNCHANGED <<cv, sched, sv, secret, made, ready, job, faults, clock>>
Restart == faults < MaxFault /\ faults' = faults + 1 /\ job' = NoJob /\ cv' = cl /\ sv' = (IF sched = "gone" /\ sv = "none" THEN "none" ELSE sched)
           /\ UNCHANGED <<cl, sched, secret, made, ready, clock>>
Tick == clock < MaxAge /\ clock' = clock + 1 /\ UNCHANGED <<cl, cv, sched, sv, secret, made, ready, job, faults>>
Next == Decide \/ Fails \/ Create \/ Expose \/ Finish \/ Drop \/ SeeCluster \/ SeeSched \/ PodRuns \/ PodDies \/ Ready \/ Deactivate \/ Restart \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Decide) /\ WF_vars(Create) /\ WF_vars(Expose) /\ WF_vars(Finish) /\ WF_vars(SeeCluster)
        /\ WF_vars(SeeSched) /\ WF_vars(Drop) /\ WF_vars(PodRuns) /\ WF_vars(Tick)
Moves == [][cl'.phase # cl.phase => MayMove(cl.phase, cl'.phase)]_vars
RunsRight == [][cl'.phase = "Running" /\ cl.phase # "Running" => MayRun(sched # "none", made)]_vars
EndsRight == cl.phase \in Over => CleanedUp(sched, secret) \/ sched = "done"
DropsRight == [][cl.there /\ ~cl'.there => MayDrop(cl.phase, cl.first, clock, 2)]_vars
(* a deactivated or dead cluster ends up finished and cleaned up *)
Ends == (~cl.active \/ sched = "done") ~> (cl.phase \in Over /\ CleanedUp(sched, secret))
=============================================================================
