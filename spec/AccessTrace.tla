----------------------------- MODULE AccessTrace -----------------------------
(* Every answer of the real gateway to a recorded sequence of requests is one the access
   rules allow.

   A request is an "ask" event (when it was sent, and which session cookie it carried)
   followed by a "done" event (when it was answered; several requests may overlap): the
   credentials sent, what the hub (if any) said about them, the answer, the clusters as they
   were right before and right after, and the messages sent to schedulers meanwhile.      *)
EXTENDS AccessRules, TLC, Json, IOUtils, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
\* ck: session cookies handed out; own: clusters created; pend: requests sent and not answered
VARIABLES t, l, ck, own, pend
vars == <<t, l, ck, own, pend>>
Tr == Traces[t].events
cfg == Traces[t].cfg
ev == Tr[l]

Init == t \in 1..Len(Traces) /\ l = 1 /\ ck = <<>> /\ own = <<>> /\ pend = <<>>

\* ------------------------------------------------------------- identities
Asked(c) == cfg.auth = "hub" /\ c.kind = "hub"
Vouched(h) == /\ h.st = 200
              /\ ~cfg.useScopes \/ ToSet(h.scopes) \cap {"access:services", "access:services!service=" \o cfg.service} # {}
HubName(h) == IF h.kind = "user" /\ ~h.colon THEN h.name ELSE h.kind \o ":" \o h.name
\* who the credentials sent prove the caller to be
FullId(e) ==
  LET c == e.cred
  IN IF cfg.auth = "simple" /\ c.kind = "basic" /\ (cfg.pw = "" \/ c.pw = cfg.pw) THEN c.user
     ELSE IF cfg.auth = "kerberos" /\ c.kind = "ticket" THEN c.user
     ELSE IF Asked(c) /\ Vouched(e.hub) THEN HubName(e.hub)
     ELSE Nobody
Tok(e) == IF e.cred.kind = "token" THEN e.cred.tok ELSE "-"

\* a cookie: certainly good for its lifetime after it was first handed out, possibly until its
\* lifetime after it was last handed out (to the user who proved to be its user)
Cookie(e) == IF e.cookie \in DOMAIN ck
             THEN [user |-> ck[e.cookie].user, must |-> e.now < ck[e.cookie].first + cfg.maxAge,
                   may |-> e.now <= ck[e.cookie].latest + cfg.maxAge]
             ELSE [user |-> Nobody, must |-> FALSE, may |-> FALSE]
Who(e) == LET p == pend[e.i]
          IN (IF p.may THEN {p.user} ELSE {}) \cup (IF p.must THEN {} ELSE {FullId(e)})

\* ------------------------------------------------------------- what is wrong with an answer, if the caller is w
Q(b, what) == IF b THEN {} ELSE {what}
Known(e) == [c \in DOMAIN e.before |-> own[c]]
Mine(e, w) == {c \in DOMAIN e.before : own[c] = w}
Untouched(e, ks) == /\ DOMAIN e.before \ ks = DOMAIN e.after \ ks
                    /\ \A c \in DOMAIN e.before \ ks : e.after[c] = e.before[c]
New(e) == DOMAIN e.after \ DOMAIN e.before
HubDown(h) == h.st <= 0 \/ h.st >= 500
Complaints(e, w) ==
  LET tok == Tok(e)
      out == Outcome(e.ep, e.k, w, tok, Known(e))
      self == e.ep \in OfBoth \cup OfCluster /\ e.k \in DOMAIN e.before /\ tok = e.k
      user == IF self \/ e.ep \in Open \cup OfCluster \cup OfProxy THEN Nobody ELSE w
      ok == e.st < 400
  IN CASE out = "denied" ->
            Q(~ok, "a request without valid credentials was served")
            \cup Q(ok \/ cfg.auth # "simple" \/ e.ep \in OfCluster \cup OfProxy \/ e.st = 401, "missing credentials must be answered with 401")
            \cup Q(ok \/ ~Asked(e.cred) \/ ~HubDown(e.hub) \/ pend[e.i].may \/ e.ep \notin OfUser \cup OfBoth \/ e.st >= 500,
                   "an outage of the hub must be reported as a server error")
            \cup Q(Untouched(e, {}), "a refused request changed something")
       [] out \in {"missing", "forbidden"} ->
            Q(e.st = (IF out = "missing" THEN 404 ELSE 403), "a cluster that is not the caller's: wrong answer")
            \cup Q(Untouched(e, {}), "a refused request changed something")
       [] out = "nothing" -> Q(e.st = 204, "deleting an unknown cluster") \cup Q(Untouched(e, {}), "it changed something")
       [] OTHER ->
            Q(ok \/ ~e.valid \/ (e.st = 409 /\ e.ep \in {"scale", "adapt", "heartbeat"}), "a rightful request was refused")
            \cup Q(ok = (e.st < 300), "redirect")
            \cup (CASE e.ep = "create" ->
                         IF ok THEN Q(e.st = 201 /\ Cardinality(New(e)) = 1 /\ ToSet(e.names) = New(e), "creation")
                                    \cup Q(\A c \in New(e) : e.after[c].owner = w, "the new cluster belongs to someone else")
                                    \cup Q(Untouched(e, New(e)), "it touched other clusters")
                         ELSE Q(Untouched(e, {}), "a refused request changed something")
                    [] e.ep = "delete" -> Q(e.st = 204 /\ e.k \in DOMAIN e.after /\ e.after[e.k].stopping, "not stopped")
                                          \cup Q(Untouched(e, {e.k}), "it touched other clusters")
                    [] e.ep \in {"scale", "adapt", "heartbeat"} -> Q(Untouched(e, {e.k}), "it touched other clusters")
                    [] OTHER -> Q(Untouched(e, {}), "a read changed something"))
            \cup (IF e.ep = "list" THEN
                    IF ok THEN Q(ToSet(e.names) = {c \in Mine(e, w) : e.before[c].status \in ToSet(e.filter)}, "wrong listing")
                    ELSE {}
                  ELSE IF e.ep = "get" THEN Q(ToSet(e.names) = {e.k}, "wrong cluster") \cup
                       Q(\A kind \in {"cert", "key"} : e.before[e.k].status # "running" \/ \E x \in ToSet(e.secrets) : x.c = e.k /\ x.kind = kind,
                         "its owner did not get the credentials of a running cluster")
                  ELSE {})
     \cup Q(\A c \in DOMAIN e.before : e.before[c].owner = own[c], "a cluster changed hands")
     \cup Q(\A m \in ToSet(e.msgs) : out = "done" /\ e.ep \in {"scale", "adapt"} /\ m.k = e.k /\ m.tok = e.k, "a message to a scheduler")
     \cup Q(\A x \in ToSet(e.secrets) : out = "done" /\ x.kind # "token" /\ user # Nobody /\ e.before[x.c].status = "running" /\ own[x.c] = user,
            "secrets in the answer")
     \cup Q(e.set = "" \/ (w # Nobody /\ w = FullId(e) /\ e.ep \in OfUser \cup OfBoth), "a session was granted without credentials")
     \cup Q(e.set \notin DOMAIN ck \/ ck[e.set].user = w, "the session of someone else was handed out")

\* ------------------------------------------------------------- behaviour
Verdict(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why]))
Ask == /\ ev.e = "ask"
       /\ pend' = (ev.i :> Cookie(ev)) @@ pend /\ l' = l + 1 /\ UNCHANGED <<t, ck, own>>
Known2 == \A c \in DOMAIN ev.before : c \in DOMAIN own
Done == /\ ev.e = "done" /\ Known2
        /\ LET good == {w \in Who(ev) : Complaints(ev, w) = {}}
           IN IF good = {}
              THEN /\ Verdict(FALSE, Complaints(ev, CHOOSE w \in Who(ev) : TRUE)) /\ l' = 0 /\ UNCHANGED <<t, ck, own, pend>>
              ELSE LET w == CHOOSE w \in good : TRUE
                   IN /\ own' = [c \in New(ev) |-> w] @@ own
                      /\ ck' = IF ev.set = "" THEN ck
                               ELSE (ev.set :> [user |-> w, latest |-> ev.now,
                                                first |-> IF ev.set \in DOMAIN ck THEN ck[ev.set].first ELSE ev.now]) @@ ck
                      /\ l' = l + 1 /\ UNCHANGED <<t, pend>>
Unknown == /\ ev.e = "done" /\ ~Known2 /\ Verdict(FALSE, {"a cluster appeared that nobody created"}) /\ l' = 0 /\ UNCHANGED <<t, ck, own, pend>>
Accept == l = Len(Tr) + 1 /\ Verdict(TRUE, {}) /\ l' = 0 /\ UNCHANGED <<t, ck, own, pend>>
Next == (l \in 1..Len(Tr) /\ (Ask \/ Done \/ Unknown)) \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
