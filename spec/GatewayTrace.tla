---------------------------- MODULE GatewayTrace ----------------------------
(* Executions of the real gateway, recorded in virtual time, are behaviours of Gateway.

   A trace: [cfg, t0, rows (records found in the database at start, possibly none),
   events].  Each event carries the instant `now` at which it happened and `snap`, what could
   be observed once the gateway was at rest again: the HTTP API's view, the database rows, the
   backend callbacks in progress (and how often each was called in this incarnation, and the
   state the last stop was given), and the proxy routes.                                   *)
EXTENDS GatewayEvents, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES s, t, l, ph, http
Tr == Traces[t].events
ev == Tr[l]

\* ------------------------------------------------------------- loading database rows
RowC(r) == [user |-> r.user, status |-> r.status, target |-> r.target, count |-> r.count, max |-> r.max,
            addr |-> r.addr, dash |-> r.dash, state |-> r.state, start |-> r.start, stop |-> r.stop,
            hb |-> None, fails |-> 0, routed |-> FALSE, ready |-> FALSE]
RowW(r) == [c |-> r.c, status |-> r.status, target |-> r.target, state |-> r.state, start |-> r.start,
            stop |-> r.stop, closeExp |-> r.closeExp]
FromRows(cfg, rows, now) ==
  LET b == InitState(cfg, now)
      raw == [b EXCEPT !.cl = [c \in DOMAIN rows.cl |-> RowC(rows.cl[c])],
                       !.wk = [w \in DOMAIN rows.wk |-> RowW(rows.wk[w])],
                       !.corder = rows.corder, !.worder = rows.worder, !.nw = rows.nw]
  IN Restart(raw, now)

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ ph = "idle" /\ http = 0
        /\ s = FromRows(Traces[t].cfg, Traces[t].rows, Traces[t].t0)

\* ------------------------------------------------------------- comparing with what was observed
SameDom(f, g) == DOMAIN f = DOMAIN g
Q(b, name) == IF b THEN {} ELSE {name}
Diff(x) ==
  LET o == ev.snap IN
     Q(http = 0 \/ ev.http = http, "C07/C15: request refused or wrong status code")
  \cup Q(o.errors = <<>>, "C03: the API failed")
  \cup Q(SameDom(o.api, x.cl), "C03/C09: set of known clusters")
  \cup (IF ~SameDom(o.api, x.cl) THEN {} ELSE
        Q(\A c \in DOMAIN x.cl : o.api[c].status = Reported(x, c), "C03: reported status")
        \cup Q(\A c \in DOMAIN x.cl : o.api[c].user = x.cl[c].user, "C08: owner")
        \cup Q(\A c \in DOMAIN x.cl : o.api[c].addr = x.cl[c].addr /\ o.api[c].dash = (x.cl[c].dash /\ Reported(x, c) = "running"), "C08/C10: addresses")
        \cup Q(\A c \in DOMAIN x.cl : o.api[c].stop = x.cl[c].stop /\ o.api[c].start = x.cl[c].start, "C03: start/stop time")
        \cup Q(\A c \in DOMAIN x.cl : o.api[c].identity, "C08: identity (token, credentials, options, config) changed")
        \cup Q(\A c \in DOMAIN x.cl : o.api[c].creds = (Reported(x, c) = "running"), "C15: credentials exposure"))
  \cup Q(ToSet(o.list) = {c \in DOMAIN x.cl : ActiveCluster(x, c)}, "C03: default listing")
  \cup Q(SameDom(o.cl, x.cl), "C08/C09: cluster records")
  \cup (IF ~SameDom(o.cl, x.cl) THEN {} ELSE
        Q(\A c \in DOMAIN x.cl : o.cl[c].status = x.cl[c].status /\ o.cl[c].target = x.cl[c].target, "C08: persisted cluster status")
        \cup Q(\A c \in DOMAIN x.cl : o.cl[c].count = x.cl[c].count, "C07: persisted cluster size")
        \cup Q(\A c \in DOMAIN x.cl : o.cl[c].state = x.cl[c].state, "C08: persisted backend state of a cluster")
        \cup Q(\A c \in DOMAIN x.cl : o.cl[c].addr = x.cl[c].addr /\ o.cl[c].dash = x.cl[c].dash /\ o.cl[c].stop = x.cl[c].stop, "C08: persisted addresses/times"))
  \cup Q(SameDom(o.wk, x.wk), "C07/C09: set of workers")
  \cup (IF ~SameDom(o.wk, x.wk) THEN {} ELSE
        Q(\A w \in DOMAIN x.wk : o.wk[w].c = x.wk[w].c, "C08: worker's cluster")
        \cup Q(\A w \in DOMAIN x.wk : o.wk[w].status = x.wk[w].status /\ o.wk[w].target = x.wk[w].target, "C07: worker status")
        \cup Q(\A w \in DOMAIN x.wk : o.wk[w].closeExp = x.wk[w].closeExp, "C07: announced closing of a worker")
        \cup Q(\A w \in DOMAIN x.wk : o.wk[w].state = x.wk[w].state, "C08: persisted backend state of a worker")
        \cup Q(\A w \in DOMAIN x.wk : o.wk[w].stop = x.wk[w].stop, "C08: persisted worker stop time"))
  \cup Q(DOMAIN o.calls = DOMAIN x.call /\ \A p \in DOMAIN o.calls : o.calls[p] = x.call[p].op, "C04/C05: callbacks in progress")
  \cup Q(SameDom(o.nstart, x.hstart) /\ \A p \in DOMAIN o.nstart : p \in DOMAIN x.hstart => o.nstart[p] = x.hstart[p], "C04: number of starts")
  \cup Q(SameDom(o.nstop, x.hstop) /\ \A p \in DOMAIN o.nstop : p \in DOMAIN x.hstop => o.nstop[p] = x.hstop[p], "C04: number of stops")
  \cup Q(\A p \in DOMAIN o.stopstate : p \in DOMAIN x.cl \cup DOMAIN x.wk =>
          o.stopstate[p] = (IF p \in DOMAIN x.cl THEN x.cl[p].state ELSE x.wk[p].state), "C04: stop given another state than the last one reported")
  \cup Q(o.checking = x.chk /\ o.wchecking = x.wchk, "C06: objects given to the status check")
  \cup Q(SameDom(o.routes, x.routes) /\ \A c \in DOMAIN o.routes : c \in DOMAIN x.routes =>
          o.routes[c].sni = x.routes[c].sni /\ o.routes[c].dash = x.routes[c].dash, "C10: routes")
  \cup Q(\A i \in DOMAIN x.waits : i \in DOMAIN o.waits /\ o.waits[i].done = Answered(x, i)
            /\ (o.waits[i].done => o.waits[i].status # "pending" \/ x.now >= x.waits[i].dl), "C03: a waiting request")
  \cup Q(o.down = (Closed(x) /\ x.proc = {}), "C05: shutdown finished too early or not at all")

\* ------------------------------------------------------------- behaviour
(* Which of several waiting objects a reconciler takes first is not part of the behaviour a
   user relies on: any order is accepted. *)
Fixed == UNCHANGED <<t, l, http>>
Dispatching == l > 0 /\ CanDispatch(s) /\ \E o \in Range(s.ready) : s' = DispatchOf(s, o) /\ Fixed /\ UNCHANGED ph
Timer == /\ ph = "idle" /\ l \in 1..Len(Tr) /\ NextDue(s) <= ev.now /\ (Settled(s) \/ NextDue(s) <= s.now)
         /\ s' \in FireAt(s, NextDue(s)) /\ Fixed /\ UNCHANGED ph
Ready == l \in 1..Len(Tr) /\ Settled(s)
Verdict(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why]))
Event == /\ ph = "idle" /\ Ready /\ NextDue(s) > ev.now
         /\ IF Possible(s, ev)
            THEN /\ s' = Apply([s EXCEPT !.now = ev.now], ev) /\ ph' = "after"
                 /\ http' = (IF "http" \in DOMAIN ev THEN Want(s, ev) ELSE 0) /\ UNCHANGED <<t, l>>
            ELSE /\ Verdict(FALSE, {"C04: a callback is in progress that should not be"})
                 /\ l' = 0 /\ UNCHANGED <<s, t, ph, http>>
Matches == /\ ph = "after" /\ Ready /\ Diff(s) = {} /\ ph' = "idle" /\ http' = 0 /\ l' = l + 1 /\ UNCHANGED <<s, t>>
Reject == /\ ph = "after" /\ Ready /\ Diff(s) # {} /\ Verdict(FALSE, Diff(s))
          /\ ("DEBUG" \in DOMAIN IOEnv => PrintT([cl |-> s.cl, wk |-> s.wk, call |-> s.call, ready |-> s.ready, now |-> s.now, routes |-> s.routes, h |-> <<s.hstart, s.hstop>>]))
          /\ l' = 0 /\ UNCHANGED <<s, t, ph, http>>
Accept == l = Len(Tr) + 1 /\ Verdict(TRUE, {}) /\ l' = 0 /\ UNCHANGED <<s, t, ph, http>>

Next == Dispatching \/ Timer \/ Event \/ Matches \/ Reject \/ Accept
Spec == Init /\ [][Next]_<<s, t, l, ph, http>>
\* the design's invariants hold along every observed execution
Inv == l > 0 => StatusDefined(s) /\ WithinLimit(s) /\ RoutesMatch(s)
=============================================================================
