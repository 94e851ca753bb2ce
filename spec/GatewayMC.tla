----------------------------- MODULE GatewayMC -----------------------------
(* Exhaustive exploration of Gateway: environment steps (requests, heartbeats of a faithful
   scheduler, callback results, timeouts firing at any moment at which they could, status
   checks, one crash) interleave with the reconcilers section by section.
   The environment has finite budgets, so the state space is finite and liveness can be
   checked without state constraints. *)
EXTENDS Gateway

CONSTANTS Clusters, Par, Bulk, Limit, MaxCount, MaxWorkers, HbBudget, ErrBudget, FireBudget, ChkBudget, CrashBudget
VARIABLES s, sch, bud
vars == <<s, sch, bud>>

Cfg == [par |-> Par, bulk |-> Bulk, cst |-> 10, wst |-> 10, hbt |-> 10, pT |-> 1, pC |-> 1,
        pW |-> 1, pX |-> 1, age |-> 0, limit |-> Limit, stopAll |-> TRUE]
Init == /\ s = InitState(Cfg, 0) /\ sch = Empty
        /\ bud = [hb |-> HbBudget, err |-> ErrBudget, fire |-> FireBudget, chk |-> ChkBudget, crash |-> CrashBudget, down |-> 1]

Pay(k) == bud[k] > 0 /\ bud' = [bud EXCEPT ![k] = @ - 1]
Live == s.up /\ ~s.closing

Reconcile == CanDispatch(s) /\ s' = Dispatch(s) /\ UNCHANGED <<sch, bud>>
UserStart(c) == /\ Live /\ c \notin Range(s.corder) /\ c \notin DOMAIN s.cl
                /\ s' = StartCluster(s, c, "u", MaxWorkers) /\ UNCHANGED <<sch, bud>>
Stop(c, f) == /\ Live /\ c \in DOMAIN s.cl /\ s.cl[c].target <= RUNNING
              /\ s' = StopCluster(s, c, f) /\ UNCHANGED <<sch, bud>>
\* the scheduler's view of workers whose start has begun
Join(w) == /\ w \in DOMAIN s.wk /\ w \notin DOMAIN sch /\ Count(s.hstart, w) > 0
           /\ s.wk[w].status < STOPPED
           /\ sch' = With(sch, w, "active") /\ UNCHANGED <<s, bud>>
Retire(w) == /\ w \in DOMAIN sch /\ sch[w] = "active" /\ sch' = With(sch, w, "closing") /\ UNCHANGED <<s, bud>>
Leave(w) == /\ w \in DOMAIN sch /\ sch[w] \in {"active", "closing"}
            /\ sch' = With(sch, w, "closed") /\ UNCHANGED <<s, bud>>
Sees(c, k) == {w \in DOMAIN sch : sch[w] = k /\ w \in DOMAIN s.wk /\ s.wk[w].c = c}
Beat(c, n) ==
  /\ Live /\ Pay("hb") /\ c \in DOMAIN s.cl /\ Count(s.hstart, c) > 0
  /\ s' = Heartbeat(s, c, [count |-> n, active |-> Sees(c, "active"), closing |-> Sees(c, "closing"),
                           closed |-> Sees(c, "closed"), addr |-> 1, dash |-> TRUE])
  /\ sch' = [w \in DOMAIN sch |-> IF w \in Sees(c, "closed") THEN "gone" ELSE sch[w]]
StartReturns(o) == o \in DOMAIN s.call /\ s.call[o].op = "start"
                   /\ s' = StartEnd(s, o, TRUE) /\ UNCHANGED <<sch, bud>>
StartFails(o) == o \in DOMAIN s.call /\ s.call[o].op = "start" /\ Pay("err")
                 /\ s' = StartEnd(s, o, FALSE) /\ UNCHANGED sch
StopReturns(o) == o \in DOMAIN s.call /\ s.call[o].op = "stop"
                  /\ s' = StopEnd(s, o) /\ UNCHANGED <<sch, bud>>
ClusterTimeout(c) == /\ Live /\ Pay("fire") /\ ActiveCluster(s, c) /\ s.cl[c].status \in {SUBMITTED, RUNNING}
                     /\ s' = FailClusters(s, <<c>>) /\ UNCHANGED sch
WorkerTimeout(w) == /\ Live /\ Pay("fire") /\ ActiveCluster(s, s.wk[w].c) /\ s.cl[s.wk[w].c].status = RUNNING
                    /\ s.wk[w].status = SUBMITTED /\ s.wk[w].target = RUNNING
                    /\ s' = FailWorkers(s, <<w>>) /\ UNCHANGED sch
ChkBegin == Live /\ Pay("chk") /\ s.chk = <<>> /\ ClusterCheckSet(s) # <<>>
            /\ s' = [s EXCEPT !.chk = ClusterCheckSet(s)] /\ UNCHANGED sch
ChkEnd == s.chk # <<>> /\ \E d \in SUBSET Range(s.chk) : s' = ClusterCheckEnd(s, d) /\ UNCHANGED <<sch, bud>>
WChkBegin == Live /\ Pay("chk") /\ s.wchk = <<>> /\ WorkerCheckSet(s) # <<>>
             /\ s' = [s EXCEPT !.wchk = WorkerCheckSet(s)] /\ UNCHANGED sch
WChkEnd == s.wchk # <<>> /\ \E d \in SUBSET Range(s.wchk) : s' = WorkerCheckEnd(s, d) /\ UNCHANGED <<sch, bud>>
Crash == Pay("crash") /\ s' = [Restart(s, 0) EXCEPT !.hstart = [o \in DOMAIN @ |-> 0]] /\ UNCHANGED sch
GoDown == Live /\ Pay("down") /\ s' = Shutdown(s) /\ UNCHANGED sch

Next == \/ Reconcile
        \/ \E c \in Clusters : UserStart(c) \/ Stop(c, FALSE) \/ Stop(c, TRUE)
        \/ \E c \in DOMAIN s.cl : ClusterTimeout(c) \/ \E n \in 0..MaxCount : Beat(c, n)
        \/ \E w \in DOMAIN s.wk : WorkerTimeout(w) \/ Join(w)
        \/ \E w \in DOMAIN sch : Retire(w) \/ Leave(w)
        \/ \E o \in DOMAIN s.call : StartReturns(o) \/ StartFails(o) \/ StopReturns(o)
        \/ ChkBegin \/ ChkEnd \/ WChkBegin \/ WChkEnd \/ Crash \/ GoDown
Progress == \/ Reconcile \/ \E o \in DOMAIN s.call : StartReturns(o) \/ StopReturns(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Progress)

\* a crash forgets which starts were in flight: starts are counted per incarnation
Inv == /\ StatusDefined(s)
       /\ WithinLimit(s)
       /\ OneStart(s)
       /\ (CrashBudget = 0 => NothingLeft(s))
       /\ RoutesMatch(s)
       /\ Cardinality(s.proc) <= Par
       /\ DOMAIN s.call \subseteq s.proc
       /\ \A w \in DOMAIN s.wk : ~(w \in DOMAIN s.call /\ s.call[w].op = "start" /\ s.wk[w].status >= STOPPED)
StatusForward == [][\A c \in DOMAIN s.cl \cap DOMAIN s'.cl : Forward(Reported(s, c), Reported(s', c))]_vars
TerminalFinal == [][\A c \in DOMAIN s.cl \cap DOMAIN s'.cl :
                      s.cl[c].status >= STOPPED => s'.cl[c].status = s.cl[c].status /\ s'.cl[c].target = s.cl[c].target]_vars
UserStopWins == [][\A c \in DOMAIN s.cl \cap DOMAIN s'.cl : s.cl[c].target = STOPPED => s'.cl[c].target = STOPPED]_vars
NoRestart == [][\A c \in DOMAIN s.cl \cap DOMAIN s'.cl : s.cl[c].target > RUNNING => s'.cl[c].target > RUNNING]_vars
\* C07: a worker is only ever added below the requested size; running workers are only removed
\* when the scheduler (or the cluster's end) says so
Grow == [][\A c \in DOMAIN s.cl \cap DOMAIN s'.cl :
             (\E w \in DOMAIN s'.wk \ DOMAIN s.wk : s'.wk[w].c = c)
                => Cardinality(ActiveWorkers(s', c)) <= s'.cl[c].count]_vars
\* C05
Converges == \A c \in Clusters : [](c \in DOMAIN s.cl /\ s.cl[c].target >= STOPPED
                                     => <>(c \notin DOMAIN s.cl \/ s.cl[c].status >= STOPPED))
ShutdownCompletes == [](s.closing => <>AllTerminal(s))
=============================================================================
