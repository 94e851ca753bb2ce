------------------------------ MODULE KubeTrace ------------------------------
(* The real controller on a fake API server follows KubeScale (C20) and KubeCluster (C21).

   A trace: [age, period (ms), events].  Every event has the moment `at` (ms).
   At the server:
     cluster c replicas            the gateway made a cluster
     spec c active replicas        as it is now
     server k c p st               an object changed: k in cluster sched worker secret service route tcproute
     status c old phase only fin   the controller wrote the status (fin: completion time, -1 none; only: and nothing else)
   What the controller does (i: the request):
     create i k c fresh ok / delete i k c p fresh / drop c       a request begins
       fresh: none like it for this cluster was under way just before
     made i k c p lost / answered i status lost / end i          what became of it
   What the controller can know:
     boot, list k have, seen c active replicas phase, seenpod k c p st, seenend c p st
     calm                          for long nothing failed or changed
   Findings are collected over the whole trace. *)
EXTENDS KubeScale, KubeCluster, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, cl, pods, calls, bad
vars == <<t, l, cl, pods, calls, bad>>
Tr == Traces[t].events
Age == Traces[t].age
Period == Traces[t].period
ev == Tr[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ cl = <<>> /\ pods = <<>> /\ calls = <<>> /\ bad = {}
Q(b, what) == IF b THEN {} ELSE {[what |-> what, at |-> l]}
Low(a, b) == IF a < b THEN a ELSE b
High(a, b) == IF a > b THEN a ELSE b

NewCluster(r) == [there |-> TRUE, phase |-> "none", active |-> TRUE, replicas |-> r, ended |-> -1, last |-> -1,
                  vActive |-> TRUE, vReplicas |-> 0, vPhase |-> "none", up |-> FALSE, dead |-> FALSE, ready |-> FALSE,
                  sched |-> "none", secret |-> "none", made |-> {}, hi |-> 0, lo |-> 0, rhi |-> 0, rlo |-> 0, rat |-> 0, lost |-> 0]
\* pods: p -> [c, k, st; seen: as seen last, was: before that, sat: since when; known, since: when it was made; dying]
\* Between a decision and the request it leads to some news may come in.
Just(at) == ev.at - at <= 10
Workers(c) == {p \in DOMAIN pods : pods[p].c = c /\ pods[p].k = "worker"}
Stale(p) == pods[p].seen = "none" /\ ev.at - pods[p].since > 590000     \* given up on
Known(c) == {p \in Workers(c) : pods[p].known /\ pods[p].seen \notin {"done", "gone"} /\ ~Stale(p) /\ (pods[p].since > 0 \/ pods[p].was # "none" \/ ~Just(pods[p].sat))}
Flying(c) == {i \in DOMAIN calls : calls[i].verb = "create" /\ calls[i].k = "worker" /\ calls[i].c = c}
Dying(c) == {p \in Workers(c) : pods[p].dying}
Left(c) == {p \in Workers(c) : pods[p].seen \in Unfinished \/ (Just(pods[p].sat) /\ pods[p].was \in Unfinished)} \ Dying(c)
IsC == ev.c \in DOMAIN cl
C == cl[ev.c]
HiSeen == IF Just(C.rat) THEN C.rhi ELSE C.vReplicas
LoSeen == IF Just(C.rat) THEN C.rlo ELSE C.vReplicas
HiNow == IF ev.fresh THEN HiSeen ELSE High(C.hi, HiSeen)
LoNow == IF ev.fresh THEN LoSeen ELSE Low(C.lo, LoSeen)

Creates ==
  IF ~IsC THEN Q(FALSE, "C21: an object was made for no known cluster")
  ELSE Q(ev.ok = <<>>, "C21: an object is not made as the cluster needs it") \cup
  CASE ev.k = "worker" ->
         Q(MayCreate(Cardinality(Known(ev.c)), Cardinality(Flying(ev.c)), HiNow + C.lost), "C20: more worker pods are made than wanted")
         \cup Q(~ev.fresh \/ Just(C.rat) \/ (C.vActive /\ C.vPhase = "Running"), "C20: worker pods are made for a cluster that is not running")
    [] ev.k \in {"sched", "secret"} -> Q(~ev.fresh \/ Just(C.rat) \/ (C.vActive /\ C.vPhase \in {"none", "Pending"}), "C21: a scheduler or credentials are made for a cluster that does not need them")
    [] OTHER -> Q(C.up, "C21: a service or route is made before the scheduler runs")
Deletes ==
  IF ~IsC THEN {}                                    \* never was there
  ELSE CASE ev.k = "worker" ->
         IF ev.p \notin DOMAIN pods THEN {}
         ELSE Q(pods[ev.p].seen # "running" \/ Just(pods[ev.p].sat), "C20: a running worker is deleted")
              \cup Q(pods[ev.p].seen = "running" \/ pods[ev.p].seen = "gone" \/ ev.p \in Dying(ev.c)
                     \/ MayDelete(pods[ev.p].seen, Cardinality(Left(ev.c)), LoNow), "C20: more pending workers are deleted than asked for")
    [] ev.k \in {"sched", "secret"} -> Q(MayTearDown(~C.vActive, C.dead), "C21: the scheduler or credentials of a living cluster are deleted")
    [] OTHER -> Q(FALSE, "C21: something is deleted that should stay")
Statuses ==
  IF ~IsC THEN {} ELSE
  Q(ev.only, "C21: the specification of a cluster is changed by the controller")
  \cup Q(MayMove(ev.old, ev.phase), "C21: the phase of a cluster goes back")
  \cup Q(ev.phase # "Running" \/ ev.old = "Running" \/ MayRun(C.up, C.made), "C21: a cluster is called running too early")
  \cup Q(ev.phase # "Stopped" \/ MayStop(~C.vActive), "C21: a cluster is called stopped without having been deactivated")
  \cup Q(ev.phase # "Failed" \/ MayFail(C.dead), "C21: a cluster is called failed although its scheduler lives")
  \cup Q(ev.phase \notin Over \/ CleanedUp(C.sched, C.secret), "C21: a finished cluster keeps its scheduler or credentials")
  \cup Q((ev.phase \in Over) = (ev.fin # -1), "C21: the completion time is missing, or set too early")
  \cup Q(ev.fin = -1 \/ (ev.fin <= ev.at /\ ev.fin >= ev.at - 6000), "C21: the completion time is not the time of completion")
Calm ==
  UNION {LET W == {p \in Workers(c) : pods[p].st \in Unfinished}
             d == Due(cl[c].active, cl[c].sched, cl[c].ready, cl[c].phase)
         IN Q(cl[c].phase = d, "C21: a cluster does not reach its phase")
            \cup Q(d \notin Over \/ CleanedUp(cl[c].sched, cl[c].secret), "C21: a finished cluster keeps its scheduler or credentials")
            \cup Q(d \notin Over \/ cl[c].last < 0 \/ ev.at - cl[c].last < Age + Period + 60000, "C21: an old finished cluster is never deleted")
            \cup (IF d = "Running" /\ cl[c].phase = "Running" /\ cl[c].active /\ cl[c].sched = "running"
                  THEN Q(Settled(Cardinality(W), Cardinality({p \in W : pods[p].st = "pending"}),
                                 Cardinality({p \in Workers(c) : pods[p].st = "done"}), cl[c].replicas),
                         "C20: the worker pods do not become what was asked for") ELSE {})
         : c \in {c \in DOMAIN cl : cl[c].there}}
Why ==
  CASE ev.e = "create" -> Creates
    [] ev.e = "delete" -> Deletes
    [] ev.e = "status" -> Statuses
    [] ev.e = "drop" -> Q(IsC /\ (~C.there \/ MayDrop(C.phase, C.ended, ev.at, Age)), "C21: a cluster record is deleted too early")
    [] ev.e = "calm" -> Calm
    [] OTHER -> {}

SetC(f) == cl' = [cl EXCEPT ![ev.c] = f]
\* one pod more, or changed
Pod(p, c, k) == IF p \in DOMAIN pods THEN pods[p] ELSE [c |-> c, k |-> k, st |-> "none", seen |-> "none", was |-> "none", sat |-> 0, known |-> FALSE, since |-> 0, dying |-> FALSE]
SetP(p, f) == pods' = [x \in DOMAIN pods \cup {p} |-> IF x = p THEN f ELSE pods[x]]
Apply ==
  CASE ev.e = "cluster" -> cl' = (ev.c :> NewCluster(ev.replicas)) @@ cl /\ UNCHANGED <<pods, calls>>
    [] ev.e = "spec" -> /\ (IF IsC THEN SetC([C EXCEPT !.active = ev.active, !.replicas = ev.replicas]) ELSE UNCHANGED cl)
                        /\ UNCHANGED <<pods, calls>>
    [] ev.e = "server" /\ ~IsC -> UNCHANGED <<cl, pods, calls>>
    [] ev.e = "server" ->
         /\ SetC(CASE ev.k = "cluster" -> [C EXCEPT !.there = FALSE]
                   [] ev.k = "sched" -> [C EXCEPT !.sched = ev.st]
                   [] ev.k = "secret" -> [C EXCEPT !.secret = ev.st]
                   [] ev.k = "endpoints" -> [C EXCEPT !.ready = (ev.st = "ready")]
                   [] ev.k \in {"service", "route", "tcproute"} -> [C EXCEPT !.made = @ \cup {ev.k}]
                   [] OTHER -> C)
         /\ IF ev.k = "worker" THEN SetP(ev.p, [Pod(ev.p, ev.c, ev.k) EXCEPT !.st = ev.st]) ELSE UNCHANGED pods
         /\ UNCHANGED calls
    [] ev.e = "status" /\ IsC ->
         /\ SetC([C EXCEPT !.phase = ev.phase, !.ended = IF ev.phase \in Over /\ @ = -1 THEN ev.fin ELSE @,
                           !.last = IF ev.phase \in Over THEN ev.fin ELSE @])
         /\ UNCHANGED <<pods, calls>>
    [] ev.e = "create" ->
         /\ calls' = (ev.i :> [verb |-> "create", k |-> ev.k, c |-> ev.c, p |-> ""]) @@ calls
         /\ (IF IsC /\ ev.k = "worker" THEN SetC([C EXCEPT !.hi = HiNow]) ELSE UNCHANGED cl) /\ UNCHANGED pods
    [] ev.e = "delete" ->
         /\ calls' = (ev.i :> [verb |-> "delete", k |-> ev.k, c |-> ev.c, p |-> ev.p]) @@ calls
         /\ (IF IsC /\ ev.k = "worker" THEN SetC([C EXCEPT !.lo = LoNow]) ELSE UNCHANGED cl)
         /\ IF ev.p \in DOMAIN pods THEN SetP(ev.p, [pods[ev.p] EXCEPT !.dying = TRUE]) ELSE UNCHANGED pods
    [] ev.e = "made" ->
         /\ IF ev.k = "worker" /\ ~ev.lost
            THEN SetP(ev.p, [Pod(ev.p, ev.c, ev.k) EXCEPT !.known = TRUE, !.since = ev.at]) ELSE UNCHANGED pods
         /\ calls' = [i \in DOMAIN calls \ {ev.i} |-> calls[i]]
         /\ IF ev.k = "worker" /\ ev.lost /\ IsC THEN SetC([C EXCEPT !.lost = @ + 1]) ELSE UNCHANGED cl
    [] ev.e \in {"answered", "end"} ->
         \* a deletion that failed is one the controller may repeat
         /\ IF ev.i \in DOMAIN calls /\ calls[ev.i].verb = "delete" /\ calls[ev.i].p \in DOMAIN pods
               /\ (ev.e = "end" \/ (ev.status >= 400 /\ ev.status # 404) \/ ev.lost)
            THEN SetP(calls[ev.i].p, [pods[calls[ev.i].p] EXCEPT !.dying = FALSE]) ELSE UNCHANGED pods
         /\ calls' = [i \in DOMAIN calls \ {ev.i} |-> calls[i]] /\ UNCHANGED cl
    [] ev.e = "boot" ->
         /\ calls' = <<>>
         /\ cl' = [c \in DOMAIN cl |-> [cl[c] EXCEPT !.vPhase = "none", !.vReplicas = 0, !.up = FALSE, !.dead = FALSE, !.hi = 0, !.lo = 0]]
         /\ pods' = [p \in DOMAIN pods |-> [pods[p] EXCEPT !.seen = "none", !.was = "none", !.known = FALSE, !.since = 0, !.dying = FALSE]]
    [] ev.e = "list" /\ ev.k = "pod" ->
         /\ pods' = [p \in DOMAIN pods |->
                       IF pods[p].seen # "none" /\ ~\E i \in DOMAIN ev.have : ev.have[i] = p THEN [pods[p] EXCEPT !.seen = "gone"] ELSE pods[p]]
         /\ cl' = [c \in DOMAIN cl |-> IF cl[c].sched = "gone" \/ \E p \in DOMAIN pods : pods[p].c = c /\ pods[p].k = "sched" /\ pods'[p].seen = "gone"
                                      THEN [cl[c] EXCEPT !.dead = TRUE] ELSE cl[c]]
         /\ UNCHANGED calls
    [] ev.e = "seen" /\ IsC ->
         SetC([C EXCEPT !.vActive = ev.active, !.vReplicas = ev.replicas, !.vPhase = ev.phase, !.rat = ev.at,
                        !.rhi = High(HiSeen, ev.replicas), !.rlo = Low(LoSeen, ev.replicas)]) /\ UNCHANGED <<pods, calls>>
    [] ev.e = "seenpod" /\ IsC ->
         /\ SetP(ev.p, [Pod(ev.p, ev.c, ev.k) EXCEPT !.was = IF @ # "none" /\ Just(pods[ev.p].sat) THEN @ ELSE Pod(ev.p, ev.c, ev.k).seen,
                                                   !.seen = ev.st, !.known = TRUE, !.sat = ev.at])
         /\ SetC(IF ev.k # "sched" THEN C
                 ELSE [C EXCEPT !.up = @ \/ ev.st = "running", !.dead = @ \/ ev.st \in {"done", "gone"}])
         /\ UNCHANGED calls
    [] OTHER -> UNCHANGED <<cl, pods, calls>>
Verdict == PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, at |-> l, why |-> bad]))
Step == l \in 1..Len(Tr) /\ UNCHANGED t /\ bad' = bad \cup Why /\ l' = l + 1 /\ Apply
Accept == l = Len(Tr) + 1 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, cl, pods, calls, bad>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
