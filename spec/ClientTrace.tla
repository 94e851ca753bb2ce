----------------------------- MODULE ClientTrace -----------------------------
(* The real client on a fake gateway follows Client (C25).
   A trace: proxy, public (addresses reports should show), and events (at: ms):
     new o own name arg            a cluster object: attached to name, or to create one with these options
     start o / up o out msg sched dash name      starting it
     cancel o what                 whoever waits for the start or a close gives up
     close k o shut / shut k o out msg           closing it: default, yes (stop the cluster), no
     call k o verb name filt arg / ret k o verb out msg got      any other request of a user
     req r o k verb name filt arg auth fine / resp r st name phase msg route got / drop r      what reaches the gateway, and its answer (st 0: none)
     exit                          the interpreter begins to exit
     end kind                      quiet: nothing happens any more; exit: the process has ended *)
EXTENDS Client, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, ob, call, req, bad
vars == <<t, l, ob, call, req, bad>>
X == Traces[t]
Tr == X.events
ev == Tr[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ ob = <<>> /\ call = <<>> /\ req = <<>> /\ bad = {}
Q(b, what) == IF b THEN {} ELSE {[what |-> what, at |-> l]}
Range(q) == {q[i] : i \in DOMAIN q}
None == [st |-> -1]
Slack == X.slack
(* ob: o -> own, attached, arg, name, st (start: no/on/ok/failed), last (answer to the start), dec (possible decisions), creates,
   sent, done (deletes asked for, carried out), open (requests under way), rest (since when none), out (cancelled or closed while starting) *)
O == ob[ev.o]
May(o) == "yes" \in ob[o].dec
StopsOnce == \A o \in DOMAIN ob : ob[o].done <= 1
Idle(o) == ob[o].st = "on" /\ ~ob[o].out /\ ob[o].open = 0
Late == UNION {Q(Idle(o) => ev.at <= ob[o].rest + (IF ob[o].last = None \/ ob[o].last.st = 401 THEN 0 ELSE PollPause) + Slack, "a start is not followed up") : o \in DOMAIN ob}
Effective == {r \in DOMAIN req : req[r].st # 401 \/ req[r].auth}
LifeReq ==
  LET x == O IN
  CASE ev.verb = "create" -> Q(x.attached = "" /\ x.st = "on" /\ x.creates = 0 /\ ev.arg = x.arg, "a cluster is created that was not asked for")
    [] ev.verb = "get" -> Q(ev.name = x.name /\ x.name # "" /\ x.st = "on", "a cluster is asked about for no reason")
                          \cup Q(x.last = None \/ x.last.st = 401 \/ StartOf(x.last.verb, x.last.st, x.last.phase) = "more", "a start goes on although it is decided")
    [] ev.verb = "delete" -> Q(ev.name = x.name /\ x.name # "" /\ May(ev.o), "a cluster is stopped that should be left alone")
                             \cup Q(x.done = 0 /\ ~x.deleting, "a cluster is stopped twice")
    [] OTHER -> Q(FALSE, "a request without a reason")
C == call[ev.k]
CallReq == Q(ev.k \in DOMAIN call /\ ev.verb = C.verb /\ ev.name = C.name /\ Range(ev.filt) = Range(C.filt) /\ ev.arg = C.arg /\ C.n = 0, "a request is not what was asked for")
Same(r, e) == r.o = e.o /\ r.k = e.k /\ r.verb = e.verb
AuthReq == Q(ev.auth \/ ~\E r \in DOMAIN req : Same(req[r], ev) /\ req[r].st = 401 /\ r + 1 = ev.r, "a challenge is not answered")
\* what a user is told of an answer
Told(a, out, msg) == IF a = None THEN Q(FALSE, "an answer without a question") ELSE
  Q(out = (IF Refusal(a.st) THEN ErrorOf(a.st) ELSE "ok"), "a refusal is not told as the error it is")
  \cup Q(~Refusal(a.st) \/ ~Speaks(a.st) \/ msg = a.msg, "the server's message is lost")
  \cup Q(out # "HTTP" \/ msg = ToString(a.st), "a refusal is not told as the error it is")
Row(name, phase, route) == <<name, phase, SchedulerOf(phase, X.proxy, name), DashboardOf(route, X.public)>>
Ret == LET a == C.last IN
  Told(a, ev.out, ev.msg)
  \cup (IF a = None \/ Refusal(a.st) THEN {} ELSE
        CASE ev.verb = "get" -> Q(ev.got = <<Row(a.name, a.phase, a.route)>>, "a cluster is shown as it is not")
          [] ev.verb = "list" -> Q(Range(ev.got) = {Row(y[1], y[2], y[3]) : y \in Range(a.got)} /\ Len(ev.got) = Len(a.got), "clusters are listed as they are not")
          [] ev.verb = "create" -> Q(ev.msg = a.name, "a new cluster goes by another name")
          [] ev.verb \in {"scale", "adapt"} -> Q(ev.msg = a.msg, "the server's warning is not passed on")
          [] OTHER -> {})
Up == LET x == O  a == x.last  s == IF a = None THEN "none" ELSE StartOf(a.verb, a.st, a.phase) IN
  CASE ev.out = "ok" -> Q(s = "ok", "a cluster is handed out that does not run")
                        \cup Q(ev.name = x.name /\ a # None /\ ev.sched = SchedulerOf(a.phase, X.proxy, x.name) /\ ev.dash = DashboardOf(a.route, X.public), "a cluster is shown as it is not")
    [] ev.out = "cancelled" -> Q(x.out, "a start is given up for no reason")
    [] OTHER -> Q(x.out \/ s = ev.out, "a failed start is not told as the error it is")
                \cup Q(x.out \/ s # ev.out \/ a.phase \in Dead \/ ~Speaks(a.st) \/ ev.msg = a.msg, "the server's message is lost")
                \cup Q(~x.out /\ x.own => (x.name = "" \/ x.dec # {"yes"} \/ x.sent > 0), "a cluster that failed to start is left behind")
Why ==
  Late \cup
  CASE ev.e = "req" -> Q(ev.fine \/ (ev.k # 0 /\ ev.o \in DOMAIN ob /\ O.out), "a request that makes no sense, or on a closed session") \cup AuthReq
                       \cup (IF ev.k = 0 THEN (IF ev.o \in DOMAIN ob THEN LifeReq ELSE Q(FALSE, "a request without a reason")) ELSE CallReq)
    [] ev.e = "up" -> Up
    [] ev.e = "shut" -> Q(ev.out = "ok" \/ (ev.out = "cancelled" /\ O.cancels > 0), "closing fails")
                        \cup Q(ev.out # "ok" \/ call[ev.k].dec # {"yes"} \/ O.name = "" \/ O.sent > 0, "a cluster is left behind")
    [] ev.e = "ret" -> Ret
    [] ev.e = "end" -> Q(\A o \in DOMAIN ob : ob[o].dec = {"yes"} /\ ob[o].name # "" => ob[o].sent > 0, "a cluster is left behind")
                       \cup Q(\A o \in DOMAIN ob : ob[o].st # "on", "a start never ends")
    [] ev.e = "hung" -> Q(FALSE, "the interpreter does not exit")
    [] OTHER -> {}
SetO(o, f) == ob' = (o :> f) @@ ob
Deciding(x, shut) == {Decide(d, shut, x.own) : d \in x.dec}
\* closing is final for blocking clients: what is asked later need not happen
Closing(x, shut) == (IF X.blocking /\ x.closed THEN x.dec ELSE {}) \cup Deciding(x, shut)
\* a start in trouble closes the object, at some time before it tells
Troubled(x, s) == IF s \in {"ok", "more"} THEN x ELSE [x EXCEPT !.dec = @ \cup Deciding(x, "default")]
LifeResp(r) ==
  LET x == ob[r.o]
      y == [x EXCEPT !.open = @ - 1, !.rest = ev.at]
      again == ev.st = 401 /\ ~r.auth
      z == IF r.verb = "delete" THEN [y EXCEPT !.done = IF ev.st \notin 1..399 THEN @ ELSE @ + 1, !.deleting = FALSE]
           ELSE IF again THEN [y EXCEPT !.last = IF @ = None THEN None ELSE [@ EXCEPT !.st = 401], !.creates = 0]
           ELSE Troubled([y EXCEPT !.last = [verb |-> r.verb, st |-> ev.st, phase |-> ev.phase, route |-> ev.route, msg |-> ev.msg],
                                   !.name = IF r.verb = "create" /\ ev.st \in 1..399 THEN ev.name ELSE @], StartOf(r.verb, ev.st, ev.phase))
  IN SetO(r.o, z)
Apply ==
  CASE ev.e = "new" -> SetO(ev.o, [own |-> ev.own, attached |-> ev.name, arg |-> ev.arg, name |-> ev.name, st |-> "no", last |-> None, dec |-> {"open"}, creates |-> 0,
                                   sent |-> 0, done |-> 0, open |-> 0, rest |-> 0, out |-> FALSE, cancels |-> 0, deleting |-> FALSE, closed |-> FALSE]) /\ UNCHANGED <<call, req>>
    [] ev.e = "start" -> SetO(ev.o, [O EXCEPT !.st = "on", !.rest = ev.at]) /\ UNCHANGED <<call, req>>
    [] ev.e = "up" -> SetO(ev.o, IF ev.out = "ok" THEN [O EXCEPT !.st = "ok"] ELSE [O EXCEPT !.st = "failed", !.dec = Deciding(O, "default")]) /\ UNCHANGED <<call, req>>
    [] ev.e = "cancel" -> SetO(ev.o, [O EXCEPT !.cancels = @ + 1, !.out = TRUE, !.dec = IF ev.what = "start" THEN @ \cup Deciding(O, "default") ELSE @]) /\ UNCHANGED <<call, req>>
    [] ev.e = "close" -> SetO(ev.o, [O EXCEPT !.out = TRUE, !.dec = Closing(O, ev.shut)]) /\ call' = (ev.k :> [dec |-> Closing(O, ev.shut)]) @@ call /\ UNCHANGED req
    [] ev.e = "shut" -> SetO(ev.o, [O EXCEPT !.closed = @ \/ ev.out = "ok"]) /\ UNCHANGED <<call, req>>
    [] ev.e = "call" -> call' = (ev.k :> [verb |-> ev.verb, name |-> ev.name, filt |-> ev.filt, arg |-> ev.arg, n |-> 0, last |-> None]) @@ call /\ UNCHANGED <<ob, req>>
    [] ev.e = "req" -> /\ req' = (ev.r :> [o |-> ev.o, k |-> ev.k, verb |-> ev.verb, auth |-> ev.auth, st |-> -1]) @@ req
                       /\ IF ev.k = 0 THEN SetO(ev.o, [O EXCEPT !.open = @ + 1, !.creates = IF ev.verb = "create" THEN 1 ELSE @,
                                                                !.sent = IF ev.verb = "delete" THEN @ + 1 ELSE @, !.deleting = @ \/ ev.verb = "delete"]) /\ UNCHANGED call
                          ELSE call' = [call EXCEPT ![ev.k].n = 1] /\ UNCHANGED ob
    [] ev.e = "resp" -> LET r == req[ev.r] IN
                        /\ req' = [req EXCEPT ![ev.r].st = ev.st]
                        /\ IF r.k = 0 THEN LifeResp(r) /\ UNCHANGED call
                           ELSE /\ call' = [call EXCEPT ![r.k] = IF ev.st = 401 /\ ~r.auth THEN [@ EXCEPT !.n = 0] ELSE
                                                [@ EXCEPT !.last = [st |-> ev.st, name |-> ev.name, phase |-> ev.phase, msg |-> ev.msg, route |-> ev.route, got |-> ev.got]]]
                                /\ UNCHANGED ob
    [] ev.e = "drop" -> /\ IF req[ev.r].k = 0 THEN LET r == req[ev.r] IN SetO(r.o, [ob[r.o] EXCEPT !.open = @ - 1, !.rest = ev.at, !.deleting = @ /\ r.verb # "delete"]) ELSE UNCHANGED ob
                        /\ UNCHANGED <<call, req>>
    [] ev.e = "exit" -> ob' = [o \in DOMAIN ob |-> [ob[o] EXCEPT !.out = TRUE, !.dec = {Decide(d, "default", ob[o].own) : d \in @}]] /\ UNCHANGED <<call, req>>
    [] OTHER -> UNCHANGED <<ob, call, req>>
Verdict == PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, at |-> l, why |-> bad]))
Step == bad = {} /\ l \in 1..Len(Tr) /\ UNCHANGED t /\ bad' = bad \cup Why /\ l' = (IF bad' = {} THEN l + 1 ELSE l) /\ Apply
Reject == bad # {} /\ l > 0 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, ob, call, req, bad>>
Accept == bad = {} /\ l = Len(Tr) + 1 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, ob, call, req, bad>>
Next == Step \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
