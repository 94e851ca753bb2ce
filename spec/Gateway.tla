------------------------------ MODULE Gateway ------------------------------
(* The database-backed gateway (backends/db_base.py): clusters and their workers, the
   reconciliation queue, the backend callbacks (start/stop/check), scheduler heartbeats,
   timeout and status checks, record expiry, shutdown, crash and restart, and the routes
   registered with the proxy.

   The state is one record `s`; every atomic section of the code (the code between two
   awaits that can suspend) is one operator  s -> s.   Sections are combined by GatewayMC
   (exhaustive, all interleavings) and by GatewayTrace (executions of the real code).

   Objects are strings: clusters "c1","c2",.. workers "w1","w2",.. in creation order.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CREATED == 1   SUBMITTED == 2   RUNNING == 3   CLOSING == 4   STOPPED == 5   FAILED == 6
None == -1

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Empty == [x \in {} |-> 0]
Range(q) == {q[k] : k \in 1..Len(q)}

(* cfg: par (parallelism), bulk (backend stops workers in bulk), cst/wst/hbt (cluster start,
   worker start, heartbeat timeouts), pT/pC/pW/pX (periods of the timeout check, cluster
   status check, worker status check, expiry), age (record age), limit (worker start failure
   limit), stopAll (stop clusters on shutdown)                                             *)

InitState(cfg, now) ==
  [ cfg |-> cfg, cl |-> Empty, wk |-> Empty, worder |-> <<>>, corder |-> <<>>,
    ready |-> <<>>, dirty |-> {}, proc |-> {}, call |-> Empty,
    chk |-> <<>>, wchk |-> <<>>, now |-> now,
    nT |-> now + cfg.pT, nC |-> now + cfg.pC, nW |-> now + cfg.pW, nX |-> now + cfg.pX,
    routes |-> Empty, nw |-> 0, up |-> TRUE, closing |-> FALSE,
    hstart |-> Empty, hstop |-> Empty, waits |-> Empty ]

\* ------------------------------------------------------------------ public view
StatusMap(st, tg) ==
  CASE st \in {CREATED, SUBMITTED} /\ tg = RUNNING -> "pending"
    [] st = RUNNING /\ tg = RUNNING -> "running"
    [] st \in {CREATED, SUBMITTED, RUNNING} /\ tg \in {CLOSING, STOPPED, FAILED} -> "stopping"
    [] st = CLOSING /\ tg \in {STOPPED, FAILED} -> "stopping"
    [] st = STOPPED /\ tg = STOPPED -> "stopped"
    [] st = FAILED /\ tg = FAILED -> "failed"
    [] OTHER -> "undefined"
Reported(s, c) == StatusMap(s.cl[c].status, s.cl[c].target)
ActiveCluster(s, c) == s.cl[c].target < STOPPED
WorkersOf(s, c) == {w \in DOMAIN s.wk : s.wk[w].c = c}
ActiveWorkers(s, c) == {w \in WorkersOf(s, c) : s.wk[w].target < STOPPED}
\* in creation order
OrderedWorkers(s, c, P(_)) == SelectSeq(s.worder, LAMBDA w : w \in DOMAIN s.wk /\ s.wk[w].c = c /\ P(w))
AllWorkersAtLeast(s, c, st) == \A w \in WorkersOf(s, c) : s.wk[w].status >= st
ReadyToClose(s, c) ==
  \/ s.cl[c].status = CLOSING /\ s.cfg.bulk /\ AllWorkersAtLeast(s, c, CLOSING)
  \/ AllWorkersAtLeast(s, c, STOPPED)

\* ------------------------------------------------------------------ queue
Put(s, o) == [s EXCEPT !.dirty = @ \cup {o},
                       !.ready = IF o \in s.dirty \/ o \in s.proc THEN @ ELSE Append(@, o)]
RECURSIVE PutAll(_, _)
PutAll(s, q) == IF q = <<>> THEN s ELSE PutAll(Put(s, Head(q)), Tail(q))
TaskDone(s, o) == [s EXCEPT !.proc = @ \ {o},
                            !.ready = IF o \in s.dirty THEN Append(@, o) ELSE @]
Take(s, o) ==
           [s EXCEPT !.ready = SelectSeq(@, LAMBDA x : x # o), !.dirty = @ \ {o}, !.proc = @ \cup {o}]

\* ------------------------------------------------------------------ small updates
UpdC(s, c, f) == [s EXCEPT !.cl = [@ EXCEPT ![c] = f @@ @]]
UpdW(s, w, f) == [s EXCEPT !.wk = [@ EXCEPT ![w] = f @@ @]]
RECURSIVE UpdWs(_, _, _)
UpdWs(s, q, f) == IF q = <<>> THEN s ELSE UpdWs(UpdW(s, Head(q), f), Tail(q), f)

Count(h, o) == IF o \in DOMAIN h THEN h[o] ELSE 0
BeginCall(s, o, op, timeout) ==
  [s EXCEPT !.call = With(@, o, [op |-> op, dl |-> IF timeout = None THEN None ELSE s.now + timeout]),
            !.hstart = IF op = "start" THEN With(@, o, Count(@, o) + 1) ELSE @,
            !.hstop = IF op = "stop" THEN With(@, o, Count(@, o) + 1) ELSE @]
EndCall(s, o) == [s EXCEPT !.call = Without(@, {o})]

\* ------------------------------------------------------------------ requests
NewCluster(c, user, max, now) ==
  [user |-> user, status |-> CREATED, target |-> RUNNING, count |-> 0, max |-> max,
   addr |-> None, dash |-> FALSE, state |-> 0, start |-> now, stop |-> None,
   hb |-> None, fails |-> 0, routed |-> FALSE, ready |-> FALSE]
StartCluster(s, c, user, max) ==
  Put([s EXCEPT !.cl = With(@, c, NewCluster(c, user, max, s.now)), !.corder = Append(@, c)], c)

StopCluster(s, c, failed) ==
  IF c \in DOMAIN s.cl /\ s.cl[c].target <= RUNNING
  THEN Put(UpdC(s, c, [target |-> IF failed THEN FAILED ELSE STOPPED]), c)
  ELSE s

(* A heartbeat m: [count, active, closing, closed (sets of workers), addr, dash].
   `drop` is the sequence of not yet running workers chosen to be stopped as surplus.   *)
LiveWorkers(s, c) == {w \in WorkersOf(s, c) : s.wk[w].status < STOPPED}
HbCount(s, c, m) == IF s.cl[c].max # None /\ m.count > s.cl[c].max THEN s.cl[c].max ELSE m.count
HbPending(s, c, m) ==
  {w \in LiveWorkers(s, c) : w \notin m.closing \cup m.active \cup m.closed
                              /\ s.wk[w].status \in {CREATED, SUBMITTED}}
HbSurplus(s, c, m) == Max(0, Cardinality(m.active) + Cardinality(HbPending(s, c, m)) - HbCount(s, c, m))
\* which ones: those not even submitted first, then in creation order
HbDrop(s, c, m) ==
  LET pend == HbPending(s, c, m)
      q == OrderedWorkers(s, c, LAMBDA w : w \in pend /\ s.wk[w].status = CREATED)
           \o OrderedWorkers(s, c, LAMBDA w : w \in pend /\ s.wk[w].status = SUBMITTED)
      n == Min(HbSurplus(s, c, m), Len(q))
  IN SubSeq(q, 1, n)
Heartbeat(s, c, m) ==
  IF c \notin DOMAIN s.cl \/ s.cl[c].target > RUNNING THEN s
  ELSE
  LET cnt == HbCount(s, c, m)
      r == s.cl[c]
      fresh == r.status # RUNNING
      live == LiveWorkers(s, c)
      closing == live \cap m.closing
      active == (live \cap m.active) \ m.closing
      closed == OrderedWorkers(s, c, LAMBDA w : w \in (live \cap m.closed) \ (m.closing \cup m.active))
      drop == HbDrop(s, c, m)
      newly == OrderedWorkers(s, c, LAMBDA w : w \in closing \cup active /\ s.wk[w].status < RUNNING)
      s1 == UpdC(s, c, [hb |-> s.now])
      s2 == IF fresh THEN UpdC(s1, c, [addr |-> m.addr, dash |-> m.dash, count |-> cnt])
            ELSE UpdC(s1, c, [count |-> cnt])
      s3 == IF fresh \/ cnt # r.count THEN Put(s2, c) ELSE s2
      s4 == [s3 EXCEPT !.wk = [w \in DOMAIN @ |->
               IF w \in Range(closed)
               THEN [@[w] EXCEPT !.target = IF s3.wk[w].closeExp THEN STOPPED ELSE FAILED]
               ELSE IF w \in Range(drop) THEN [@[w] EXCEPT !.target = STOPPED] ELSE @[w]]]
      s5 == PutAll(s4, closed \o drop)
      s6 == IF newly = <<>> THEN s5
            ELSE UpdWs(UpdC(s5, c, [fails |-> 0]), newly, [status |-> RUNNING])
  IN [s6 EXCEPT !.wk = [w \in DOMAIN @ |-> IF w \in closing THEN [@[w] EXCEPT !.closeExp = TRUE] ELSE @[w]]]

(* A request that waits for the cluster to leave "pending" (GET ?wait): answered as soon as the
   cluster is ready (or past it), after 20 s at the latest. *)
WaitLimit == 160
Wait(s, i, c) == [s EXCEPT !.waits = With(@, i, [c |-> c, dl |-> s.now + WaitLimit])]
Answered(s, i) == LET x == s.waits[i] IN x.c \notin DOMAIN s.cl \/ s.cl[x.c].ready \/ s.now >= x.dl

\* ------------------------------------------------------------------ background checks
Sections(s) == s.now
\* a SUBMITTED cluster older than the start timeout, a RUNNING cluster silent for longer than
\* the heartbeat timeout, a SUBMITTED worker (of a healthy cluster) older than its start timeout
LateCluster(s, c) ==
  /\ ActiveCluster(s, c)
  /\ \/ s.cl[c].status = SUBMITTED /\ s.cl[c].start < s.now - s.cfg.cst
     \/ s.cl[c].status = RUNNING /\ s.cl[c].hb < s.now - s.cfg.hbt
LateWorker(s, w) ==
  LET c == s.wk[w].c IN
  /\ ActiveCluster(s, c) /\ s.cl[c].status = RUNNING /\ ~LateCluster(s, c)
  /\ s.wk[w].status = SUBMITTED /\ s.wk[w].target = RUNNING
  /\ s.wk[w].start < s.now - s.cfg.wst
FailClusters(s, q) == PutAll([s EXCEPT !.cl = [c \in DOMAIN @ |->
                          IF c \in Range(q) THEN [@[c] EXCEPT !.target = FAILED] ELSE @[c]]], q)
FailWorkers(s, q) == PutAll(UpdWs(s, q, [target |-> FAILED]), q)
TimeoutCheck(s) ==
  LET lc == SelectSeq(s.corder, LAMBDA c : c \in DOMAIN s.cl /\ LateCluster(s, c))
      \* workers are visited cluster by cluster
      lws(c) == OrderedWorkers(s, c, LAMBDA w : LateWorker(s, w))
      RECURSIVE Cat(_)
      Cat(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q) \in DOMAIN s.cl THEN lws(Head(q)) ELSE <<>>) \o Cat(Tail(q))
  IN FailWorkers(FailClusters(s, lc), Cat(s.corder))

ClusterCheckSet(s) == SelectSeq(s.corder, LAMBDA c : c \in DOMAIN s.cl /\ ActiveCluster(s, c) /\ s.cl[c].status = SUBMITTED)
WorkerCheckSet(s) ==
  LET RECURSIVE Cat(_)
      Cat(q) == IF q = <<>> THEN <<>> ELSE
         (IF Head(q) \in DOMAIN s.cl /\ ActiveCluster(s, Head(q)) /\ s.cl[Head(q)].status = RUNNING
          THEN OrderedWorkers(s, Head(q), LAMBDA w : s.wk[w].target < STOPPED /\ s.wk[w].status = SUBMITTED)
          ELSE <<>>) \o Cat(Tail(q))
  IN Cat(s.corder)
\* the verdict of the backend applies only to those still pending when it arrives
ClusterCheckEnd(s, dead) ==
  LET q == SelectSeq(s.chk, LAMBDA c : c \in dead /\ c \in DOMAIN s.cl /\ ActiveCluster(s, c) /\ s.cl[c].status = SUBMITTED)
  IN [FailClusters(s, q) EXCEPT !.chk = <<>>, !.nC = s.now + s.cfg.pC]
RECURSIVE BumpFails(_, _)
BumpFails(s, q) == IF q = <<>> THEN s
                   ELSE BumpFails(UpdC(s, s.wk[Head(q)].c, [fails |-> s.cl[s.wk[Head(q)].c].fails + 1]), Tail(q))
WorkerCheckEnd(s, dead) ==
  LET q == SelectSeq(s.wchk, LAMBDA w : w \in dead /\ w \in DOMAIN s.wk /\ s.wk[w].target < STOPPED
                                         /\ s.wk[w].status = SUBMITTED)
  IN [FailWorkers(BumpFails(s, q), q) EXCEPT !.wchk = <<>>, !.nW = s.now + s.cfg.pW]

\* ------------------------------------------------------------------ reconciliation
SetRoutes(s, c) ==
  IF s.cl[c].routed THEN s
  ELSE [UpdC(s, c, [routed |-> TRUE]) EXCEPT
          !.routes = With(@, c, [sni |-> s.cl[c].addr, dash |-> s.cl[c].dash])]
RECURSIVE CreateWorkers(_, _, _)
CreateWorkers(s, c, n) ==
  IF n <= 0 THEN s ELSE
  LET w == "w" \o ToString(s.nw + 1)
      r == [c |-> c, status |-> CREATED, target |-> RUNNING, state |-> 0, start |-> s.now,
            stop |-> None, closeExp |-> FALSE]
  IN CreateWorkers(Put([s EXCEPT !.wk = With(@, w, r), !.worder = Append(@, w), !.nw = @ + 1], w), c, n - 1)
Scale(s, c) ==
  IF s.cl[c].fails >= s.cfg.limit
  THEN Put(UpdC(s, c, [target |-> FAILED]), c)
  ELSE CreateWorkers(s, c, s.cl[c].count - Cardinality(ActiveWorkers(s, c)))
ToClosing(s, c) ==
  LET tw == IF s.cfg.bulk THEN CLOSING ELSE STOPPED
      ws == OrderedWorkers(s, c, LAMBDA w : s.wk[w].target < tw)
      s1 == PutAll(UpdWs(s, ws, [target |-> tw]), ws)
      s2 == UpdC(s1, c, [status |-> CLOSING, ready |-> TRUE])
  IN IF ws = <<>> THEN Put(s2, c) ELSE s2

\* a reconciler has taken cluster c: runs until it suspends in a callback, or is done
RecCluster(s, c) ==
  LET r == s.cl[c] IN
  IF c \notin DOMAIN s.cl THEN TaskDone(s, c)
  ELSE IF r.status >= STOPPED THEN TaskDone(s, c)
  ELSE IF r.target \in {STOPPED, FAILED}
  THEN IF r.status = CLOSING
       THEN IF ReadyToClose(s, c) THEN BeginCall(s, c, "stop", None) ELSE TaskDone(s, c)
       ELSE TaskDone(ToClosing(s, c), c)
  ELSE IF r.target # RUNNING THEN TaskDone(s, c)
  ELSE IF r.status = CREATED THEN BeginCall(s, c, "start", s.cfg.cst)
  ELSE LET s1 == IF r.status = SUBMITTED /\ r.addr # None
                 THEN UpdC(s, c, [status |-> RUNNING, ready |-> TRUE,
                                  hb |-> IF r.hb = None THEN s.now ELSE r.hb]) ELSE s
       IN IF s1.cl[c].status = RUNNING THEN TaskDone(Scale(SetRoutes(s1, c), c), c)
          ELSE TaskDone(s1, c)

WorkerStopped(s, w) ==
  LET c == s.wk[w].c
      s1 == UpdW(s, w, [status |-> s.wk[w].target, stop |-> s.now])
  IN TaskDone(IF ReadyToClose(s1, c) \/ (s1.cl[c].target = RUNNING /\ ~s1.wk[w].closeExp)
              THEN Put(s1, c) ELSE s1, w)
RecWorker(s, w) ==
  LET r == s.wk[w] IN
  IF w \notin DOMAIN s.wk THEN TaskDone(s, w)
  ELSE IF r.status >= STOPPED THEN TaskDone(s, w)
  ELSE IF r.target = CLOSING
  THEN LET s1 == UpdW(s, w, [status |-> CLOSING])
       IN TaskDone(IF ReadyToClose(s1, r.c) THEN Put(s1, r.c) ELSE s1, w)
  ELSE IF r.target \in {STOPPED, FAILED}
  THEN IF r.status > CREATED THEN BeginCall(s, w, "stop", None) ELSE WorkerStopped(s, w)
  ELSE IF r.status = CREATED /\ r.target = RUNNING THEN BeginCall(s, w, "start", s.cfg.wst)
  ELSE TaskDone(s, w)

IsCluster(s, o) == o \in DOMAIN s.cl
\* a gateway going down processes nothing more once no cluster needs it to
AllTerminal(s) == \A c \in DOMAIN s.cl : s.cl[c].status >= STOPPED
Closed(s) == s.closing /\ (~s.cfg.stopAll \/ AllTerminal(s))
CanDispatch(s) == s.up /\ ~Closed(s) /\ s.ready # <<>> /\ Cardinality(s.proc) < s.cfg.par
DispatchOf(s, o) ==
  LET t == Take(s, o)
  IN IF IsCluster(s, o) THEN RecCluster(t, o)
     ELSE IF o \in DOMAIN s.wk THEN RecWorker(t, o) ELSE TaskDone(t, o)
Dispatch(s) == DispatchOf(s, Head(s.ready))
RECURSIVE RunToRest(_)
RunToRest(s) == IF CanDispatch(s) THEN RunToRest(Dispatch(s)) ELSE s

\* ------------------------------------------------------------------ callbacks return
Checkpoint(s, o, k) == IF IsCluster(s, o) THEN UpdC(s, o, [state |-> k]) ELSE UpdW(s, o, [state |-> k])
StartEnd(s0, o, ok) ==
  LET s == EndCall(s0, o) IN
  IF IsCluster(s, o)
  THEN IF ok THEN TaskDone(UpdC(s, o, [status |-> SUBMITTED]), o)
       ELSE TaskDone(Put(UpdC(s, o, [status |-> SUBMITTED,
                                     target |-> IF s.cl[o].target > RUNNING THEN s.cl[o].target ELSE FAILED]), o), o)
  ELSE IF ok THEN TaskDone(UpdW(s, o, [status |-> Max(s.wk[o].status, SUBMITTED)]), o)
       ELSE LET s1 == UpdW(s, o, [status |-> SUBMITTED, target |-> FAILED])
                c == s.wk[o].c
            IN TaskDone(Put(UpdC(s1, c, [fails |-> s1.cl[c].fails + 1]), o), o)
StopEnd(s0, o) ==
  LET s == EndCall(s0, o) IN
  IF IsCluster(s, o)
  THEN LET s1 == [s EXCEPT !.routes = Without(@, {o}),
                           !.wk = [w \in DOMAIN @ |-> IF @[w].c = o /\ @[w].status < STOPPED
                                     THEN [@[w] EXCEPT !.status = STOPPED, !.target = STOPPED] ELSE @[w]]]
       IN TaskDone(UpdC(s1, o, [status |-> s.cl[o].target, stop |-> s.now, ready |-> TRUE]), o)
  ELSE WorkerStopped(s, o)

\* ------------------------------------------------------------------ expiry, shutdown, restart
Expired(s) == {c \in DOMAIN s.cl : s.cl[c].stop # None /\ s.cl[c].stop < s.now - s.cfg.age}
Expire(s) == LET x == Expired(s) IN
  [s EXCEPT !.cl = Without(@, x), !.wk = Without(@, {w \in DOMAIN @ : @[w].c \in x}),
            !.corder = SelectSeq(@, LAMBDA c : c \notin x),
            !.worder = SelectSeq(@, LAMBDA w : s.wk[w].c \notin x)]
\* orderly shutdown: checks end; if configured every active cluster is failed
Shutdown(s) ==
  LET q == SelectSeq(s.corder, LAMBDA c : c \in DOMAIN s.cl /\ ActiveCluster(s, c))
      s1 == [s EXCEPT !.closing = TRUE, !.chk = <<>>, !.wchk = <<>>]
  IN IF s.cfg.stopAll THEN FailClusters(s1, q) ELSE s1

(* What survives a crash: the records.  What a restarted gateway makes of them: every
   unfinished object is reconciled again; one whose start was interrupted after it had
   checkpointed something is treated as a failed start. *)
Interrupted(r) == r.status = CREATED /\ r.state # 0
ReloadC(r, now) ==
  LET r1 == IF Interrupted(r)
            THEN [r EXCEPT !.status = SUBMITTED, !.target = IF @ > RUNNING THEN @ ELSE FAILED] ELSE r
  IN [r1 EXCEPT !.hb = IF r1.status = RUNNING THEN now ELSE None, !.fails = 0, !.routed = FALSE,
                !.ready = r1.status >= RUNNING]
ReloadW(r) == IF Interrupted(r)
              THEN [r EXCEPT !.status = SUBMITTED, !.target = IF @ > RUNNING THEN @ ELSE FAILED] ELSE r
RECURSIVE LoadOrder(_, _)
LoadOrder(s, q) ==
  IF q = <<>> THEN <<>> ELSE
  LET c == Head(q) IN
  (IF s.cl[c].status < STOPPED
   THEN <<c>> \o OrderedWorkers(s, c, LAMBDA w : s.wk[w].status < STOPPED) ELSE <<>>) \o LoadOrder(s, Tail(q))
Restart(s, now) ==
  LET b == InitState(s.cfg, now)
      s1 == [b EXCEPT !.cl = [c \in DOMAIN s.cl |-> ReloadC(s.cl[c], now)],
                      !.wk = [w \in DOMAIN s.wk |-> ReloadW(s.wk[w])],
                      !.corder = s.corder, !.worder = s.worder, !.nw = s.nw,
                      !.hstart = s.hstart, !.hstop = s.hstop]
  IN Expire(PutAll(s1, LoadOrder(s1, s1.corder)))

\* ------------------------------------------------------------------ properties (state)
\* C03: the pair (status, target) always has a public meaning
StatusDefined(s) == \A c \in DOMAIN s.cl : Reported(s, c) # "undefined"
Rank(p) == CASE p = "pending" -> 1 [] p = "running" -> 2 [] p = "stopping" -> 3
             [] p \in {"stopped", "failed"} -> 4 [] OTHER -> 0
\* C03: p may be followed by q
Forward(p, q) == Rank(p) < Rank(q) \/ p = q
\* C04: nothing that was started outlives its owner's record of it
NothingLeft(s) ==
  /\ \A c \in DOMAIN s.cl : s.cl[c].status >= STOPPED =>
        /\ Count(s.hstart, c) > 0 => Count(s.hstop, c) > 0
        /\ c \notin DOMAIN s.call
        /\ \A w \in WorkersOf(s, c) :
             /\ s.wk[w].status >= STOPPED /\ w \notin DOMAIN s.call
             /\ ~s.cfg.bulk /\ Count(s.hstart, w) > 0 => Count(s.hstop, w) > 0
  /\ \A c \in DOMAIN s.call \cap DOMAIN s.cl : s.call[c].op = "stop" /\ ~s.cfg.bulk =>
        \A w \in WorkersOf(s, c) : s.wk[w].status >= STOPPED /\ w \notin DOMAIN s.call
OneStart(s) == \A o \in DOMAIN s.hstart : s.hstart[o] <= 1
\* C07
WithinLimit(s) == \A c \in DOMAIN s.cl :
  /\ s.cl[c].max # None => s.cl[c].count <= s.cl[c].max
  /\ s.cl[c].max # None => Cardinality({w \in ActiveWorkers(s, c) : TRUE}) <= s.cl[c].max
\* C10 (at rest)
RoutesMatch(s) == s.ready = <<>> /\ s.proc = {} =>
  /\ \A c \in DOMAIN s.cl : Reported(s, c) = "running" => c \in DOMAIN s.routes
  /\ \A c \in DOMAIN s.routes : c \in DOMAIN s.cl /\ s.cl[c].status < STOPPED /\ s.routes[c].sni = s.cl[c].addr
=============================================================================
