------------------------------- MODULE JobsMC -------------------------------
(* Every order of submissions, failures, aborted starts, ended and purged jobs, wiped directories, gateway crashes, stops and checks. *)
EXTENDS Jobs, TLC
CONSTANTS Objs, MaxJobs, Clean, Always
\* Clean: failed starts remove what they staged; Always: the job is cancelled whatever happened to the directory
VARIABLES ph, rec, stage, jobs, lost, uncancelled, rep
vars == <<ph, rec, stage, jobs, lost, uncancelled, rep>>
Ids == DOMAIN jobs
Init == /\ ph = [o \in Objs |-> "new"] /\ rec = [o \in Objs |-> 0] /\ stage = [o \in Objs |-> FALSE]
        /\ jobs = <<>> /\ lost = {} /\ uncancelled = {} /\ rep = [o \in Objs |-> "none"]
Of(o) == {j \in Ids : jobs[j].by = o}
Begin(o) == ph[o] = "new" /\ ph' = [ph EXCEPT ![o] = "staging"] /\ stage' = [stage EXCEPT ![o] = TRUE] /\ UNCHANGED <<rec, jobs, lost, uncancelled, rep>>
Refused(o) == ph[o] = "staging" /\ ph' = [ph EXCEPT ![o] = "failed"] /\ stage' = [stage EXCEPT ![o] = IF Clean THEN FALSE ELSE @] /\ UNCHANGED <<rec, jobs, lost, uncancelled, rep>>
Submit(o) == /\ ph[o] = "staging" /\ Len(jobs) < MaxJobs /\ jobs' = Append(jobs, [by |-> o, st |-> "alive", cancels |-> 0])
             /\ ph' = [ph EXCEPT ![o] = "answer"] /\ UNCHANGED <<rec, stage, lost, uncancelled, rep>>
Record(o) == ph[o] = "answer" /\ rec' = [rec EXCEPT ![o] = CHOOSE j \in Of(o) : TRUE] /\ ph' = [ph EXCEPT ![o] = "up"] /\ UNCHANGED <<stage, jobs, lost, uncancelled, rep>>
\* the gateway crashes or gives up in between: nobody knows the job (an accepted limit)
Abort(o) == ph[o] \in {"staging", "answer"} /\ ph' = [ph EXCEPT ![o] = "failed"] /\ lost' = lost \cup {o} /\ UNCHANGED <<rec, stage, jobs, uncancelled, rep>>
JobEnds(j) == jobs[j].st = "alive" /\ jobs' = [jobs EXCEPT ![j].st = "dead"] /\ UNCHANGED <<ph, rec, stage, lost, uncancelled, rep>>
Purge(j) == jobs[j].st = "dead" /\ jobs' = [jobs EXCEPT ![j].st = "purged"] /\ UNCHANGED <<ph, rec, stage, lost, uncancelled, rep>>
Wipe(o) == stage[o] /\ ph[o] = "up" /\ stage' = [stage EXCEPT ![o] = FALSE] /\ UNCHANGED <<ph, rec, jobs, lost, uncancelled, rep>>
Stop(o) == ph[o] \in {"up", "failed"} /\ ph' = [ph EXCEPT ![o] = IF rec[o] = 0 THEN "stopped" ELSE "stopping"] /\ UNCHANGED <<rec, stage, jobs, lost, uncancelled, rep>>
Cancel(o, works) ==
  /\ ph[o] = "stopping"
  /\ LET do == Always \/ stage[o] IN
     /\ jobs' = IF do /\ works THEN [jobs EXCEPT ![rec[o]].cancels = 1, ![rec[o]].st = IF @ = "alive" THEN "dead" ELSE @] ELSE jobs
     /\ uncancelled' = IF ~works THEN uncancelled \cup {o} ELSE uncancelled
  /\ stage' = [stage EXCEPT ![o] = FALSE] /\ ph' = [ph EXCEPT ![o] = "stopped"] /\ UNCHANGED <<rec, lost, rep>>
\* a crash in the middle of a stop: it is done again
Again(o) == ph[o] = "stopped" /\ rec[o] # 0 /\ ph' = [ph EXCEPT ![o] = "stopping"] /\ UNCHANGED <<rec, stage, jobs, lost, uncancelled, rep>>
Check(o, ok) == /\ ph[o] = "up"
                /\ rep' = [rep EXCEPT ![o] = IF ~ok \/ jobs[rec[o]].st = "purged" THEN "none" ELSE jobs[rec[o]].st]
                /\ UNCHANGED <<ph, rec, stage, jobs, lost, uncancelled>>
Next == \/ \E o \in Objs : Begin(o) \/ Refused(o) \/ Submit(o) \/ Record(o) \/ Abort(o) \/ Wipe(o) \/ Stop(o) \/ Again(o)
                           \/ \E b \in BOOLEAN : Cancel(o, b) \/ Check(o, b)
        \/ \E j \in Ids : JobEnds(j) \/ Purge(j)
Spec == Init /\ [][Next]_vars
OneEach == \A o \in Objs : Cardinality(Of(o)) <= 1
Tied == \A o \in Objs : rec[o] # 0 => jobs[rec[o]].by = o
\* only what was asked to stop is cancelled
Own == \A j \in Ids : jobs[j].cancels > 0 => ph[jobs[j].by] \in {"stopping", "stopped"}
NoOrphan == \A o \in Objs : (ph[o] = "stopped" /\ o \notin lost \cup uncancelled) => \A j \in Of(o) : jobs[j].st # "alive"
Cleaned == \A o \in Objs : (ph[o] = "stopped" /\ o \notin lost) => ~stage[o]
NeverDead == \A o \in Objs : (rep[o] = "dead") => jobs[rec[o]].st # "alive"
=============================================================================
