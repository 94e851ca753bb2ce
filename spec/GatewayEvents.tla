--------------------------- MODULE GatewayEvents ---------------------------
(* Events of the environment of Gateway as seen from outside (requests, callback results,
   crashes), and the timers of the gateway itself.  Shared by GatewayTrace (checking recorded
   executions) and GatewayGen (producing scripts to run against the real code). *)
EXTENDS Gateway

ToSet(q) == {q[k] : k \in 1..Len(q)}

\* ------------------------------------------------------------- time
Dues(x) == {x.nT, x.nX} \cup (IF x.chk = <<>> THEN {x.nC} ELSE {}) \cup (IF x.wchk = <<>> THEN {x.nW} ELSE {})
Deadlines(x) == {x.call[o].dl : o \in {p \in DOMAIN x.call : x.call[p].dl # None}}
NextDue(x) == SetMin((IF x.closing THEN {} ELSE Dues(x)) \cup Deadlines(x) \cup {1000000000})
FireAt(x0, d) ==  \* the possible results of one timer due at d
  LET x == [x0 EXCEPT !.now = Max(@, d)] IN
     (IF ~x.closing /\ x.nT = d THEN {[TimeoutCheck(x) EXCEPT !.nT = d + x.cfg.pT]} ELSE {})
  \cup (IF ~x.closing /\ x.chk = <<>> /\ x.nC = d
        THEN {IF ClusterCheckSet(x) = <<>> THEN [x EXCEPT !.nC = d + x.cfg.pC]
              ELSE [x EXCEPT !.chk = ClusterCheckSet(x)]} ELSE {})
  \cup (IF ~x.closing /\ x.wchk = <<>> /\ x.nW = d
        THEN {IF WorkerCheckSet(x) = <<>> THEN [x EXCEPT !.nW = d + x.cfg.pW]
              ELSE [x EXCEPT !.wchk = WorkerCheckSet(x)]} ELSE {})
  \cup (IF ~x.closing /\ x.nX = d THEN {[Expire(x) EXCEPT !.nX = d + x.cfg.pX]} ELSE {})
  \cup {StartEnd(x, o, FALSE) : o \in {p \in DOMAIN x.call : x.call[p].dl = d}}

\* ------------------------------------------------------------- events
\* in this incarnation only
Fresh(x) == [x EXCEPT !.hstart = Empty, !.hstop = Empty]
Apply(x, ev) ==
  CASE ev.e = "start"    -> StartCluster(x, ev.c, ev.user, ev.max)
    [] ev.e = "stop"     -> StopCluster(x, ev.c, FALSE)
    [] ev.e = "fail"     -> StopCluster(x, ev.c, TRUE)
    [] ev.e = "hb"       -> Heartbeat(x, ev.c, [count |-> ev.m.count, active |-> ToSet(ev.m.active),
                                closing |-> ToSet(ev.m.closing), closed |-> ToSet(ev.m.closed),
                                addr |-> ev.m.addr, dash |-> ev.m.dash])
    [] ev.e = "yield"    -> Checkpoint(x, ev.o, ev.k)
    [] ev.e = "started"  -> StartEnd(x, ev.o, ev.ok)
    [] ev.e = "stopped"  -> StopEnd(x, ev.o)
    [] ev.e = "checked"  -> ClusterCheckEnd(x, ToSet(ev.dead))
    [] ev.e = "wchecked" -> WorkerCheckEnd(x, ToSet(ev.dead))
    [] ev.e = "crash"    -> Fresh(Restart(x, ev.now))
    [] ev.e = "shutdown" -> Shutdown(x)
    [] ev.e = "get"      -> IF ev.c \in DOMAIN x.cl THEN Wait(x, ev.i, ev.c) ELSE x
    [] ev.e = "wait"     -> x
\* the event presupposes a callback in progress that the specification also has in progress
Possible(x, ev) ==
  CASE ev.e \in {"yield", "started"} -> ev.o \in DOMAIN x.call /\ x.call[ev.o].op = "start"
    [] ev.e = "stopped" -> ev.o \in DOMAIN x.call /\ x.call[ev.o].op = "stop"
    [] ev.e = "checked" -> x.chk # <<>>
    [] ev.e = "wchecked" -> x.wchk # <<>>
    [] OTHER -> TRUE
\* the HTTP status a well-formed request must get
Want(x, ev) ==
  CASE ev.e = "start" -> 201
    [] ev.e = "stop" -> IF ev.via = "token" /\ ev.c \notin DOMAIN x.cl THEN 401 ELSE 204
    [] ev.e = "hb" -> IF ev.c \in DOMAIN x.cl THEN 200 ELSE 401
    [] OTHER -> 0
Settled(x) == ~CanDispatch(x)
=============================================================================
