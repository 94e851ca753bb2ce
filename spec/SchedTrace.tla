----------------------------- MODULE SchedTrace -----------------------------
(* The real scheduler service on a fake scheduler and a fake gateway follows Sched (C24).
   A trace: period, ap (pause between two looks at the demand), idle (timeout), all in ms, and events (at: ms):
     join n long / leave n         workers
     cmd id right op n mn mx active / done id code      requests to the scheduler's own API; right: with the token, and well-formed
     eval v / odd                  the scheduler is asked for its demand (and fails to say)
     post id good count active closing closed / ans id ok     a report; good: to the right place, with the token and the right addresses
     retire names whole / retired ok
     act busy                      a task changes state; busy: something is still to do
     down good / downed ok         it asks to be shut down
     stop, end *)
EXTENDS Sched, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, w, s, pend, r, d, bad
vars == <<t, l, w, s, pend, r, d, bad>>
X == Traces[t]
Tr == X.events
ev == Tr[l]
Range(q) == {q[i] : i \in DOMAIN q}
Never == 2000000000
Slack == 60
K == 3
\* w: workers; s: size and adaptive sizing; pend: requests not obeyed yet; r: the report on its way; d: shutting down
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
        /\ w = [live |-> {}, long |-> {}, ever |-> {}, fresh |-> {}, left |-> {}]
        /\ s = [size |-> 0, on |-> FALSE, mn |-> None, mx |-> None, win |-> <<>>, due |-> Never]
        /\ pend = <<>>
        /\ r = [ph |-> "rest", id |-> 0, closing |-> {}, closed |-> {}, due |-> First(X.period), fails |-> 0, by |-> 0, asked |-> FALSE]
        /\ d = [last |-> 0, busy |-> FALSE, due |-> IF X.idle > 0 THEN (X.idle * 5) \div 4 ELSE Never, open |-> FALSE, over |-> FALSE]
Q(b, what) == IF b THEN {} ELSE {[what |-> what, at |-> l]}
Lower(x, y) == IF x < y THEN x ELSE y
Surplus == Cardinality(w.live) - s.size
Sets(q) == Cardinality(Range(q)) = Len(q)
Late == IF ev.e = "stop" THEN {} ELSE
  Q(r.ph # "rest" \/ ev.at <= r.due + Slack, "a report is late")
  \cup Q(r.ph # "told" \/ ev.at <= r.by + Slack \/ w.live \cap r.closing = {}, "surplus workers are not retired")
  \cup Q(ev.at <= s.due + Slack, "the demand is not looked at in time")
  \cup Q(d.over \/ d.open \/ ev.at <= d.due + Slack, "an idle cluster stays up")
Refused == IF ev.id \notin DOMAIN pend THEN Q(ev.code < 300, "a request is refused that was in order")
           ELSE IF pend[ev.id].right THEN Q(FALSE, "a request is refused that was in order")
           ELSE Q(ev.code >= 400, "a request is obeyed that should have been refused")
Halted == r.ph = "halted"
Why ==
  IF Halted THEN Q(ev.e \notin {"post", "down", "retire"}, "a stopped service goes on")
  ELSE Late \cup
  CASE ev.e = "post" ->
         LET A == Range(ev.active)  C == Range(ev.closing)  D == Range(ev.closed) IN
         Q(ev.good, "a report is not for this gateway, or not of this cluster")
         \cup Q(r.ph \in {"rest", "told"}, "two reports at a time")
         \cup Q(r.ph # "told" \/ w.live \cap r.closing = {}, "surplus workers are not retired")
         \cup Q(ev.count = s.size, "a report has another size than was asked for")
         \cup Q(Sets(ev.active) /\ Sets(ev.closing) /\ Sets(ev.closed) /\ Partition(A, C, D, w.live), "a report does not have each worker in its one place")
         \cup Q(w.fresh \subseteq D, "a report leaves out a closed worker")
         \cup Q(D \subseteq w.ever, "a report has a worker as closed that never was")
         \cup Q(C \cap w.long = {} /\ Cardinality(C) = (IF Surplus <= 0 THEN 0 ELSE Lower(Surplus, Cardinality(w.live \ w.long))), "a report closes too many workers or too few")
    [] ev.e = "retire" -> Q(r.ph = "told" /\ Range(ev.names) = r.closing \cap w.live, "workers are retired that no accepted report has as closing")
                          \cup Q(ev.whole, "workers are retired but not closed")
    [] ev.e = "done" -> Refused
    [] ev.e = "down" -> Q(ev.good, "a request to be shut down is not for this gateway, or not of this cluster")
                        \cup Q(MayShutDown(d.busy, d.last, X.idle, ev.at), "a cluster that was not idle for the whole timeout shuts down")
    [] OTHER -> {}
News(x, due) == IF x THEN [r EXCEPT !.due = Lower(@, due)] ELSE r
SizeNews(new, old) == News(new.size # old.size, ev.at)
Base(x) == [k \in {"size", "on", "mn", "mx", "win"} |-> x[k]]
With(x, due) == [size |-> x.size, on |-> x.on, mn |-> x.mn, mx |-> x.mx, win |-> x.win, due |-> due]
\* a request is obeyed between its arrival and its answer
Obeying == /\ bad = {} /\ l \in 1..Len(Tr) /\ ev.e \in {"done", "post", "eval", "odd", "join"}
           /\ ev.e = "done" => ev.id \in DOMAIN pend
           /\ \E i \in DOMAIN pend :
                /\ pend[i].right
                /\ LET n == Obey(Base(s), pend[i]) IN
                   s' = With(n, IF ~n.on THEN Never ELSE IF s.on /\ n.mn = s.mn /\ n.mx = s.mx THEN s.due ELSE ev.at) /\ r' = SizeNews(n, s)
                /\ pend' = [j \in DOMAIN pend \ {i} |-> pend[j]]
           /\ UNCHANGED <<t, l, w, d, bad>>
Failed == LET f == r.fails + 1 IN [r EXCEPT !.ph = "rest", !.fails = f, !.due = Max({ev.at, Lower(@, ev.at + Pause(f, X.period))}), !.closing = {}]
Fine == [r EXCEPT !.ph = "rest", !.fails = 0, !.due = Max({ev.at, Lower(@, ev.at + Period(X.period))})]
Apply ==
  CASE ev.e = "join" -> /\ w' = [w EXCEPT !.live = @ \cup {ev.n}, !.fresh = @ \ {ev.n}, !.long = IF ev.long THEN @ \cup {ev.n} ELSE @ \ {ev.n}]
                        /\ r' = News(Cardinality(w'.live) > s.size, ev.at + NewsWithin) /\ UNCHANGED <<s, pend, d>>
    [] ev.e = "leave" -> /\ w' = [w EXCEPT !.live = @ \ {ev.n}, !.ever = @ \cup {ev.n}, !.fresh = @ \cup {ev.n}, !.left = @ \cup {ev.n}, !.long = @ \ {ev.n}]
                         /\ r' = News(X.period > 0 /\ ev.n \notin r.closing, ev.at + NewsWithin) /\ UNCHANGED <<s, pend, d>>
    [] ev.e = "cmd" -> pend' = (ev.id :> [right |-> ev.right, op |-> ev.op, n |-> ev.n, mn |-> ev.mn, mx |-> ev.mx, active |-> ev.active]) @@ pend /\ UNCHANGED <<w, s, r, d>>
    [] ev.e = "done" -> pend' = [j \in DOMAIN pend \ {ev.id} |-> pend[j]] /\ UNCHANGED <<w, s, r, d>>
    [] ev.e = "eval" -> /\ IF s.on THEN LET n == Adapted(Base(s), ev.v, K) IN s' = With(n, ev.at + X.ap) /\ r' = SizeNews(n, s) ELSE UNCHANGED <<s, r>>
                        /\ UNCHANGED <<w, pend, d>>
    [] ev.e = "odd" -> s' = [s EXCEPT !.due = IF s.on THEN ev.at + X.ap ELSE @] /\ UNCHANGED <<w, pend, r, d>>
    [] ev.e = "post" -> /\ r' = [r EXCEPT !.ph = "out", !.id = ev.id, !.closing = Range(ev.closing), !.closed = Range(ev.closed), !.due = Never]
                        /\ w' = [w EXCEPT !.left = {}] /\ UNCHANGED <<s, pend, d>>
    [] ev.e = "ans" -> /\ IF ~ev.ok THEN r' = Failed /\ UNCHANGED w
                          ELSE /\ w' = [w EXCEPT !.fresh = @ \ (r.closed \ w.left)]
                               /\ r' = IF r.closing \cap w.live # {} THEN [r EXCEPT !.ph = "told", !.by = ev.at] ELSE Fine
                       /\ UNCHANGED <<s, pend, d>>
    [] ev.e = "retire" -> r' = [r EXCEPT !.ph = "retiring"] /\ UNCHANGED <<w, s, pend, d>>
    [] ev.e = "retired" -> r' = (IF ev.ok THEN Fine ELSE Failed) /\ UNCHANGED <<w, s, pend, d>>
    [] ev.e = "act" -> d' = [d EXCEPT !.busy = ev.busy, !.last = ev.at, !.due = IF ev.busy \/ X.idle = 0 THEN Never ELSE ev.at + (X.idle * 5) \div 4] /\ UNCHANGED <<w, s, pend, r>>
    [] ev.e = "down" -> d' = [d EXCEPT !.open = TRUE] /\ UNCHANGED <<w, s, pend, r>>
    [] ev.e = "downed" -> /\ d' = [d EXCEPT !.open = FALSE, !.over = @ \/ ev.ok, !.due = IF @ = Never THEN @ ELSE Max({@, ev.at + X.idle \div 4})]
                          /\ UNCHANGED <<w, s, pend, r>>
    [] ev.e = "stop" -> r' = [r EXCEPT !.ph = "halted"] /\ UNCHANGED <<w, s, pend, d>>
    [] OTHER -> UNCHANGED <<w, s, pend, r, d>>
Verdict == PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, at |-> l, why |-> bad]))
\* a request that was in order is only answered once it has been obeyed; others never are
Ripe == ev.e = "done" => (ev.id \in DOMAIN pend => ~(pend[ev.id].right /\ ev.code = 200))
Step == bad = {} /\ l \in 1..Len(Tr) /\ Ripe /\ UNCHANGED t /\ bad' = bad \cup Why /\ l' = (IF bad' = {} THEN l + 1 ELSE l) /\ Apply
Reject == bad # {} /\ l > 0 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, w, s, pend, r, d, bad>>
Accept == bad = {} /\ l = Len(Tr) + 1 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, w, s, pend, r, d, bad>>
Next == Step \/ Obeying \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
