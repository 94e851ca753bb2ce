---------------------------- MODULE ForwardTrace ----------------------------
(* Scale and adapt requests on the real gateway follow Forward and Limits.

   A trace: [max (attempts), events].  Events:
     ask   i k op size active lim live fate   a request begins
     send  i k tok op size active at          a message leaves for a scheduler, because of i
     reply i ok at                            its outcome
     done  i st told fate                     the answer to i
     gone  i fate                             the client of i went away
     stop  k fate                             the owner stopped k
     see   fate                               nothing but time passed
   Sizes are [given, num, int, n] in thousandths; fate: cluster -> "up"/"stopped"/"failed"/"new". *)
EXTENDS Forward, Limits, Sequences, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, req, ask, fate, last
vars == <<t, l, req, ask, fate, last>>
Tr == Traces[t].events
max == Traces[t].max
ev == Tr[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ req = <<>> /\ ask = <<>> /\ fate = <<>> /\ last = <<>>

Q(b, what) == IF b THEN {} ELSE {what}
Valid(a) == IF ~a.object THEN FALSE ELSE IF a.op = "scale" THEN ScaleOk(a.size.count) ELSE SizeOk(a.size.min) /\ SizeOk(a.size.max)
Reduced(a) == IF a.op = "scale" THEN ScaleReduced(a.size.count, a.lim) ELSE AdaptReduced(a.size.min, a.size.max, a.lim)
\* a null minimum may be spelled out
AsAsked(a, m) == /\ m.op = a.op
               /\ IF a.op = "scale" THEN m.count = ScaleSends(a.size.count, a.lim)
                  ELSE /\ m.max = AdaptMax(a.size.max, a.lim) /\ m.active = a.active
                       /\ m.min = AdaptMin(a.size.min, a.lim) \/ (AdaptMin(a.size.min, a.lim) = None /\ m.min = 0)
Delay == 10000   \* milliseconds between attempts, at most

\* clusters that the driver made in the meantime come with their fate
Known(f) == [k \in DOMAIN f |-> IF k \in DOMAIN fate /\ fate[k] # "new" THEN fate[k] ELSE f[k]]
Fates(want) == Q(\A k \in DOMAIN ev.fate : want[k] = ev.fate[k],
                 "a cluster was failed or stopped without reason, or not failed")
Why ==
  CASE ev.e = "ask" -> Fates(Known(ev.fate))
    [] ev.e = "send" ->
         LET r == req[ev.i] a == ask[ev.i]
         IN Q(ev.i \in DOMAIN req, "a message nobody asked for") \cup
            IF ev.i \notin DOMAIN req THEN {} ELSE
            Q(r.live, "a message was sent although the cluster was not running")
            \cup Q(Valid(a), "a message was sent for an invalid size")
            \cup Q(~Valid(a) \/ AsAsked(a, ev), "the message is not what was asked for")
            \cup Q(ev.k = r.k, "the message went to another scheduler")
            \cup Q(ev.tok = r.k, "the message carries another token")
            \cup Q(~r.won, "the message was sent again after it had arrived")
            \cup Q(r.tries < Tries(max), "more attempts than configured")
            \cup Q(r.open /\ ~r.fly, "two attempts at once, or after the answer")
            \cup Q(r.tries = 0 \/ (ev.at > last[ev.i] /\ ev.at <= last[ev.i] + Delay), "retried without delay or far too late")
    [] ev.e = "reply" -> {}
    [] ev.e = "done" ->
         LET r == req[ev.i] a == ask[ev.i]
         IN IF ~Valid(a) THEN Q(ev.st >= 400, "an invalid size was accepted")
                              \cup Q(~a.object \/ ev.st = 422 \/ (~r.live /\ ev.st = 409), "the refusal of an invalid size is not a client error")
                              \cup Fates(Known(ev.fate))
            ELSE Q(r.live \/ ev.st = 409, "a cluster that is not running must give a conflict")
                 \cup Q(~r.live \/ r.won = (ev.st = 200), "the answer does not tell whether the message arrived")
                 \cup Q(~r.live \/ r.won \/ ev.st = 409, "a failed delivery must give a conflict")
                 \cup Q(MayAnswer(r, max), "gave up before the configured number of attempts")
                 \cup Q(ev.st # 200 \/ ev.told = Reduced(a), "the caller is not told (rightly) about a reduction")
                 \cup Fates(Known(ev.fate))
    [] ev.e = "stop" -> Fates([k \in DOMAIN ev.fate |-> IF k = ev.k /\ Known(ev.fate)[k] \in {"up", "new"} THEN "stopped" ELSE Known(ev.fate)[k]])
    [] ev.e = "end" -> Q(\A i \in DOMAIN req : ~req[i].open, "a request was never answered") \cup Fates(Known(ev.fate))
    [] OTHER -> Fates(Known(ev.fate))

Verdict(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why]))
Seen == fate' = [k \in DOMAIN fate \cup DOMAIN ev.fate |-> IF k \in DOMAIN ev.fate THEN ev.fate[k] ELSE fate[k]]
Apply ==
  CASE ev.e = "ask" -> /\ req' = (ev.i :> NewReq(ev.k, ev.live)) @@ req
                       /\ ask' = (ev.i :> ev) @@ ask /\ Seen /\ UNCHANGED last
    [] ev.e = "send" -> req' = [req EXCEPT ![ev.i] = Send(@)] /\ UNCHANGED <<ask, fate, last>>
    [] ev.e = "reply" -> /\ req' = [req EXCEPT ![ev.i] = Reply(@, ev.ok)]
                         /\ last' = (ev.i :> ev.at) @@ last /\ UNCHANGED ask
                         /\ LET k == req[ev.i].k
                            IN fate' = IF k \in DOMAIN fate /\ Exhausted(req'[ev.i], max) THEN [fate EXCEPT ![k] = Fail(@)] ELSE fate
    [] ev.e \in {"done", "gone"} -> req' = [req EXCEPT ![ev.i].open = FALSE, ![ev.i].fly = FALSE] /\ Seen /\ UNCHANGED <<ask, last>>
    [] OTHER -> Seen /\ UNCHANGED <<req, ask, last>>
Step == /\ l \in 1..Len(Tr) /\ UNCHANGED t
        /\ IF Why = {} THEN l' = l + 1 /\ Apply ELSE Verdict(FALSE, Why) /\ l' = 0 /\ UNCHANGED <<req, ask, fate, last>>
Accept == l = Len(Tr) + 1 /\ Verdict(TRUE, {}) /\ l' = 0 /\ UNCHANGED <<t, req, ask, fate, last>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
