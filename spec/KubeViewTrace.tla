---------------------------- MODULE KubeViewTrace ----------------------------
(* The real gateway with the Kubernetes backend on a fake API server follows KubeView (C22).
   Events (at: ms):
     boot                          a new gateway process knows nothing
     server c v phase owner named svc opts max start stop mine active replicas   version v of a cluster
     seen c v                      the gateway is told of it
     reading c / read c ok         it fetches credentials
     patch c path op n off / made ok owner opts / outcome c st   what it asks of the API server (598/599: failed)
     msg c ok n                    it messages a scheduler (ok: the right one, with its token)
     odd what                      it asks for anything else
     ask r op c user token wait filt n / answer r st got new     requests of users and schedulers *)
EXTENDS KubeView, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, cl, g, req, bad
vars == <<t, l, cl, g, req, bad>>
Tr == Traces[t].events
ev == Tr[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ cl = <<>> /\ g = [open |-> 0, last |-> -1000] /\ req = <<>> /\ bad = {}
Q(b, what) == IF b THEN {} ELSE {[what |-> what, at |-> l]}
Range(s) == {s[i] : i \in DOMAIN s}
\* cl: c -> [vers, seen, seenAt, low, have, failing, pAt: first told of progress, gAt: told that it is gone]
Fresh == [vers |-> <<>>, seen |-> 0, seenAt |-> 0, low |-> 0, have |-> FALSE, failing |-> FALSE, pAt |-> -1, gAt |-> -1]
K == IF ev.c \in DOMAIN cl THEN cl[ev.c] ELSE Fresh
Rest(c) == ev.at - cl[c].seenAt > 20 /\ g.open = 0 /\ ev.at - g.last > 20 /\ ~cl[c].failing
Version(c, v) == cl[c].vers[v]
Lo(c) == IF Rest(c) THEN cl[c].seen ELSE cl[c].low
Maybe(c) == Lo(c)..cl[c].seen                     \* 0: not heard of
Owner(c) == Version(c, 1).owner
Fits(x, c, v) ==
  LET y == Version(c, v) IN
  v > 0 /\ y.phase # "gone" /\ x.status = Shown(y.phase) /\ x.start = y.start /\ x.stop = y.stop /\ x.opts = y.opts
  /\ x.dash = (IF y.phase = "Running" /\ y.svc THEN "right" ELSE "none") /\ x.tls = (IF y.phase = "Running" THEN "right" ELSE "none")
Fitting(x) == IF x.c \notin DOMAIN cl THEN {} ELSE {v \in Maybe(x.c) : v > 0 /\ Fits(x, x.c, v)}
Absent(c, v) == v = 0 \/ Version(c, v).phase = "gone"
MaybeAbsent(c) == c \notin DOMAIN cl \/ \E v \in Maybe(c) : Absent(c, v)
MaybeThere(c) == c \in DOMAIN cl /\ \E v \in Maybe(c) : ~Absent(c, v)
Surely(c) == c \in DOMAIN cl /\ Rest(c) /\ ~Absent(c, cl[c].seen)
R == req[ev.r]
\* it has had time to read the credentials of the cluster, and had to
Unread(c) == Surely(c) /\ NeedsRead(Version(c, cl[c].seen).phase, Version(c, cl[c].seen).named, cl[c].have)
Owns(r) == r.user # "" /\ r.c \in DOMAIN cl /\ r.user = Owner(r.c)
MayHold(r) == r.token = "right" /\ r.c \in DOMAIN cl /\ cl[r.c].have
Allowed(r) == Owns(r) \/ MayHold(r)
(* answers *)
Failed(r) == \E s \in r.outcomes : s \notin {200, 201, 404}
Broke(r) == Q(Failed(r), "a request fails although nothing else did")
GetAnswer ==
  LET r == R  c == r.c
      \* a cluster that was gone before may be one that is not known yet
      prog == IF c \notin DOMAIN cl THEN -1 ELSE IF ev.st # 404 THEN cl[c].pAt ELSE IF r.at < cl[c].gAt THEN cl[c].gAt ELSE -1
      since == IF prog < 0 THEN -1 ELSE IF g.last > prog THEN g.last ELSE prog IN
  (IF r.wait THEN Q(~WaitedTooLong(r.at, IF c \in DOMAIN cl /\ (cl[c].failing \/ g.open > 0) THEN -1 ELSE since, ev.at), "a waiting request is answered late")
   ELSE Q(ev.at - r.at <= 5, "a request that does not wait is made to wait"))
  \cup CASE ev.st = 200 ->
         Q(Owns(r), "a cluster is shown to somebody who does not own it")
         \cup (LET x == ev.got[1] IN
               Q(x.c = c /\ Fitting(x) # {}, "a cluster is shown as it is not")
               \cup Q(~r.wait \/ WaitedEnough(x.status # "PENDING", r.at, ev.at), "a waiting request is answered before there is progress"))
       [] ev.st = 403 -> Q(MaybeThere(c) /\ ~Owns(r), "an owner is refused")
       [] ev.st = 404 -> Q(MaybeAbsent(c), "a cluster that is there is not found")
                         \cup Q(~r.wait \/ WaitedEnough(c \in DOMAIN cl /\ cl[c].seen > 0, r.at, ev.at), "a waiting request is answered before there is progress")
       [] OTHER -> Q(FALSE, "a request fails although nothing else did")
Listed == {x.c : x \in Range(ev.got)}
Wanted(r) == IF r.filt = <<>> THEN {"PENDING", "RUNNING"} ELSE Range(r.filt)
ListAnswer ==
  LET r == R IN
  Q(ev.st = 200, "a request fails although nothing else did") \cup
  Q(\A x \in Range(ev.got) : x.c \in DOMAIN cl /\ r.user = Owner(x.c), "a cluster is shown to somebody who does not own it") \cup
  Q(\A x \in Range(ev.got) : x.c \notin DOMAIN cl \/ Fitting([x EXCEPT !.tls = IF x.status = "RUNNING" THEN "right" ELSE "none"]) # {} \/ Fitting(x) # {}, "a cluster is listed as it is not") \cup
  Q(\A x \in Range(ev.got) : x.status \in Wanted(r), "a cluster is listed that was not asked for") \cup
  Q(\A c \in DOMAIN cl : Surely(c) /\ Owner(c) = r.user /\ Shown(Version(c, cl[c].seen).phase) \in Wanted(r) => c \in Listed, "a cluster is missing from a list")
StopAnswer ==
  LET r == R IN
  CASE ev.st = 204 -> Q(Allowed(r) \/ (r.user # "" /\ MaybeAbsent(r.c)), "somebody stops a cluster who may not")
                      \cup Q(~Allowed(r) \/ ~Surely(r.c) \/ Version(r.c, cl[r.c].seen).phase \in Over \/ (r.off /\ r.outcomes \cap {200, 404} # {}), "a cluster is not stopped as asked")
    [] ev.st = 403 -> Q(r.user # "" /\ ~Owns(r), "an owner is refused")
    [] ev.st = 401 -> Q(r.user = "" /\ ~(MayHold(r) /\ Surely(r.c)), "a scheduler is refused")
    [] OTHER -> Broke(r)
BeatAnswer ==
  LET r == R IN
  CASE ev.st = 200 -> Q(MayHold(r), "a heartbeat is accepted without the cluster's token")
                      \cup Q(~Surely(r.c) \/ (r.set /\ r.outcomes \cap {200, 404} # {}), "a heartbeat has no effect")
    [] ev.st = 401 -> Q(~(MayHold(r) /\ Surely(r.c)), "a scheduler is refused")
                      \cup Q(~(r.token = "right" /\ Unread(r.c)), "a scheduler is refused, as its credentials were not read")
    [] OTHER -> Broke(r)
ScaleAnswer ==
  LET r == R IN
  CASE ev.st \in {200, 409} -> Q(Owns(r), "a cluster is scaled by somebody who does not own it") \cup Q(ev.st = 409 \/ r.msg, "a cluster is not scaled as asked")
    [] ev.st = 403 -> Q(~Owns(r), "an owner is refused")
    [] ev.st = 404 -> Q(MaybeAbsent(r.c), "a cluster that is there is not found")
    [] OTHER -> Broke(r)
CreateAnswer ==
  LET r == R IN
  IF ev.st = 201 THEN Q(ev.new \in DOMAIN cl /\ Owner(ev.new) = r.user /\ 201 \in r.outcomes, "a new cluster is not what was asked for") ELSE Broke(r)
Open(P(_)) == \E i \in DOMAIN req : P(req[i])
StopFor(r) == r.op \in {"stop", "scale"} /\ r.c = ev.c /\ Allowed(r)
BeatFor(r) == r.op = "beat" /\ r.c = ev.c /\ MayHold(r) /\ ev.n = Capped(r.n, Version(ev.c, 1).max)
ScaleFor(r) == r.op = "scale" /\ r.c = ev.c /\ Owns(r) /\ ev.n = Capped(r.n, Version(ev.c, 1).max)
Why ==
  CASE ev.e = "odd" -> Q(FALSE, "the gateway asks the API server for something it has no business with: " \o ev.what)
    [] ev.e = "made" -> Q(ev.ok = <<>> /\ Open(LAMBDA r : r.op = "create" /\ r.user = ev.owner /\ ev.opts = "{\"note\": \"n" \o ToString(r.n) \o "\"}"),
                          "a new cluster is not what was asked for")
    [] ev.e = "patch" ->
         (IF ev.path = "/spec/active" THEN Q(ev.off /\ ev.op \in {"add", "replace"} /\ Open(StopFor), "a cluster is deactivated that nobody may stop now")
              \cup Q(ev.c \notin DOMAIN cl \/ ~Rest(ev.c) \/ Version(ev.c, cl[ev.c].seen).phase \notin Over, "a finished cluster is stopped again")
          ELSE IF ev.path = "/spec/replicas" THEN Q(ev.op \in {"add", "replace"} /\ Open(BeatFor), "replicas are set that no scheduler asked for")
          ELSE Q(FALSE, "the gateway changes something it should not"))
    [] ev.e = "msg" -> Q(ev.ok /\ Open(ScaleFor), "a scheduler gets a message not meant for it")
    [] ev.e = "answer" -> CASE R.op = "get" -> GetAnswer [] R.op = "list" -> ListAnswer [] R.op = "stop" -> StopAnswer
                            [] R.op = "beat" -> BeatAnswer [] R.op = "scale" -> ScaleAnswer [] OTHER -> CreateAnswer
    [] OTHER -> {}
Max(a, b) == IF a > b THEN a ELSE b
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
SetK(f) == cl' = (ev.c :> f) @@ cl
Apply ==
  CASE ev.e = "boot" -> /\ cl' = [c \in DOMAIN cl |-> [Fresh EXCEPT !.vers = cl[c].vers, !.seenAt = ev.at]] /\ g' = [open |-> 0, last |-> ev.at] /\ req' = <<>>
    [] ev.e = "server" -> SetK([K EXCEPT !.vers = Append(@, ev)]) /\ UNCHANGED <<g, req>>
    [] ev.e = "seen" ->
         /\ IF ev.c \in DOMAIN cl /\ ev.v > K.seen
            THEN LET y == K.vers[ev.v] IN
                 \* progress that could not be shown for want of credentials counts from when they are no longer needed
                 LET fails == K.failing /\ NeedsRead(y.phase, y.named, K.have) IN
                 SetK([K EXCEPT !.low = Lo(ev.c), !.seen = ev.v, !.seenAt = ev.at, !.pAt = IF (@ < 0 \/ (K.failing /\ ~fails)) /\ y.phase \in Done THEN ev.at ELSE @,
                                !.gAt = IF y.phase = "gone" /\ K.seen > 0 THEN ev.at ELSE @, !.failing = fails])
            ELSE UNCHANGED cl
         /\ UNCHANGED <<g, req>>
    [] ev.e = "reading" -> g' = [g EXCEPT !.open = @ + 1] /\ cl' = [c \in DOMAIN cl |-> [cl[c] EXCEPT !.low = Lo(c)]] /\ UNCHANGED req
    [] ev.e = "read" -> /\ g' = [open |-> Max(0, g.open - 1), last |-> ev.at]
                        /\ (IF ev.c \in DOMAIN cl THEN SetK([K EXCEPT !.have = @ \/ ev.ok,
                                !.failing = ~ev.ok /\ (K.seen = 0 \/ NeedsRead(K.vers[K.seen].phase, K.vers[K.seen].named, K.have))]) ELSE UNCHANGED cl)
                        /\ UNCHANGED req
    [] ev.e = "ask" -> req' = (ev.r :> [op |-> ev.op, c |-> ev.c, user |-> ev.user, token |-> ev.token, wait |-> ev.wait, filt |-> ev.filt, n |-> ev.n,
                                        at |-> ev.at, outcomes |-> {}, off |-> FALSE, set |-> FALSE, msg |-> FALSE]) @@ req /\ UNCHANGED <<cl, g>>
    [] ev.e = "outcome" -> req' = [i \in DOMAIN req |-> IF req[i].c = ev.c THEN [req[i] EXCEPT !.outcomes = @ \cup {ev.st}] ELSE req[i]] /\ UNCHANGED <<cl, g>>
    [] ev.e = "patch" -> req' = [i \in DOMAIN req |-> IF req[i].c = ev.c THEN [req[i] EXCEPT !.off = @ \/ ev.off,
                                       !.set = @ \/ (ev.c \in DOMAIN cl /\ ev.path = "/spec/replicas" /\ ev.n = Capped(req[i].n, Version(ev.c, 1).max))] ELSE req[i]] /\ UNCHANGED <<cl, g>>
    [] ev.e = "msg" -> req' = [i \in DOMAIN req |-> IF req[i].c = ev.c THEN [req[i] EXCEPT !.msg = TRUE] ELSE req[i]] /\ UNCHANGED <<cl, g>>
    [] ev.e = "answer" ->
         /\ req' = [i \in DOMAIN req \ {ev.r} |-> req[i]]
         /\ cl' = [c \in DOMAIN cl |-> LET X == {x \in Range(ev.got) : x.c = c}
                                           V == IF X = {} THEN {} ELSE Fitting(CHOOSE x \in X : TRUE)
                                       IN IF V = {} THEN cl[c] ELSE [cl[c] EXCEPT !.low = Max(@, Min(V))]]
         /\ UNCHANGED g
    [] OTHER -> UNCHANGED <<cl, g, req>>
Verdict == PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, at |-> l, why |-> bad]))
Step == l \in 1..Len(Tr) /\ UNCHANGED t /\ bad' = bad \cup Why /\ l' = l + 1 /\ Apply
Accept == l = Len(Tr) + 1 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, cl, g, req, bad>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
