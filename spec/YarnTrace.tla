----------------------------- MODULE YarnTrace -----------------------------
(* The real YARN backend, on a stand-in for skein, acts on exactly its own applications and containers (C29).
   A trace: objs (owner: number of a worker's cluster, 0 for a cluster; cores, mem of its scheduler and wcores, wmem of its workers), events:
     start o
     shape o cores mem | submit o id wrong asked    an application was submitted (id 0: refused) for cluster o
     add o app id wrong                             a container was added (id 0: refused) to an application, for worker o
     started o id | failed o fault | abort o        how a start ended
     stop o | kill app ok | killc app id ok | stopped o raised fault alive
     checkc / checkw os answers got                 one check, the truth, and what was reported (<<>>: failed)
     badcreds app | odd what                        a connection with the wrong credentials; anything else *)
EXTENDS Yarn, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, ph, own, lost, bad
vars == <<t, l, ph, own, lost, bad>>
X == Traces[t]
Tr == X.events
ev == Tr[l]
N == DOMAIN X.objs
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ lost = {}
        /\ ph = [o \in DOMAIN Traces[t].objs |-> "new"] /\ own = [o \in DOMAIN Traces[t].objs |-> 0]
Q(b, what) == IF b THEN {} ELSE {[what |-> what, at |-> l]}
Range(q) == {q[i] : i \in DOMAIN q}
Owner(o) == X.objs[o].owner
\* applications and containers are numbered together
Of(id) == {o \in N : own[o] = id /\ id # 0}
Submission ==
  IF ev.o = 0 THEN Q(FALSE, "an application is submitted for nothing")
  ELSE Q(ph[ev.o] = "starting" \/ ev.o \in lost, "an application is submitted that nobody asked for")
       \cup Q(own[ev.o] = 0, "an application is submitted twice")
       \cup Q(ev.id = 0 \/ Fits(ev.asked, X.objs[ev.o]), "other resources are requested than configured")
       \cup Q(ev.wrong = <<>> \/ ev.o \in lost, "an application is not what was asked for: " \o (IF ev.wrong = <<>> THEN "" ELSE ev.wrong[1]))
Adding ==
  IF ev.o = 0 THEN Q(FALSE, "a container is added for nothing")
  ELSE Q(ph[ev.o] = "starting" \/ ev.o \in lost, "a container is added that nobody asked for")
       \cup Q(own[ev.o] = 0, "a worker gets two containers")
       \cup Q(ev.app = own[Owner(ev.o)], "a worker is started in another's application")
       \cup Q(ev.wrong = <<>>, "a worker is not started as it should be: " \o (IF ev.wrong = <<>> THEN "" ELSE ev.wrong[1]))
Why ==
  CASE ev.e = "shape" -> Q(Fits(ev, [cores |-> X.objs[ev.o].wcores, mem |-> X.objs[ev.o].wmem]), "other resources are requested than configured")
    [] ev.e = "submit" -> Submission
    [] ev.e = "add" -> Adding
    [] ev.e = "started" -> Q(own[ev.o] # 0 /\ ev.id = own[ev.o], "a started object is not tied to what was started for it")
    [] ev.e = "failed" -> Q(ev.fault, "a start fails for no reason")
    [] ev.e = "kill" ->
         IF Of(ev.app) = {} THEN Q(FALSE, "another's application is stopped")
         ELSE LET o == CHOOSE x \in Of(ev.app) : TRUE IN Q(ph[o] \in {"stopping", "stopped"}, "an application is stopped that is not being stopped")
    [] ev.e = "killc" ->
         IF Of(ev.id) = {} THEN Q(FALSE, "another's container is stopped")
         ELSE LET o == CHOOSE x \in Of(ev.id) : TRUE IN Q(ph[o] \in {"stopping", "stopped"}, "a container is stopped that is not being stopped")
    [] ev.e = "stopped" -> Q(~ev.raised \/ ev.fault, "a stop fails for no reason") \cup Q(~ev.alive \/ ev.fault, "something is left running")
    [] ev.e = "checkc" -> Q(HonestClusters(ev.answers, ev.got), "a check of clusters reports something else than YARN")
    [] ev.e = "checkw" -> Q(HonestWorkers(ev.answers, ev.got), "a check of workers reports something else than YARN")
    [] ev.e = "badcreds" -> Q(FALSE, "an application is addressed with another's credentials")
    [] ev.e = "odd" -> Q(FALSE, ev.what)
    [] OTHER -> {}
Apply ==
  CASE ev.e = "start" -> ph' = [ph EXCEPT ![ev.o] = "starting"] /\ UNCHANGED <<own, lost>>
    [] ev.e \in {"submit", "add"} /\ ev.id # 0 /\ ev.o # 0 -> own' = [own EXCEPT ![ev.o] = ev.id] /\ UNCHANGED <<ph, lost>>
    [] ev.e = "started" -> ph' = [ph EXCEPT ![ev.o] = "up"] /\ UNCHANGED <<own, lost>>
    [] ev.e = "failed" -> ph' = [ph EXCEPT ![ev.o] = "failed"] /\ lost' = lost \cup {ev.o} /\ UNCHANGED <<own>>
    [] ev.e = "abort" -> ph' = [ph EXCEPT ![ev.o] = "failed"] /\ lost' = lost \cup {ev.o} /\ UNCHANGED <<own>>
    [] ev.e = "stop" -> ph' = [ph EXCEPT ![ev.o] = "stopping"] /\ UNCHANGED <<own, lost>>
    [] ev.e = "stopped" -> ph' = [ph EXCEPT ![ev.o] = "stopped"] /\ UNCHANGED <<own, lost>>
    [] OTHER -> UNCHANGED <<ph, own, lost>>
Verdict == PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, at |-> l, why |-> bad]))
Step == bad = {} /\ l \in 1..Len(Tr) /\ UNCHANGED t /\ bad' = bad \cup Why /\ l' = (IF bad' = {} THEN l + 1 ELSE l) /\ Apply
Reject == bad # {} /\ l > 0 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, ph, own, lost, bad>>
Accept == bad = {} /\ l = Len(Tr) + 1 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, ph, own, lost, bad>>
Next == Step \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
