----------------------------- MODULE JobsTrace -----------------------------
(* The real job-queue and local backends act on exactly their own jobs (C27).
   A trace: objs (per object: cluster, its cluster's number; cores and mem wanted), patience, events:
     start o
     submit o id user wrong staged asked   the manager got a submission (id 0: and refused it), or a process was started
     started o id | failed o fault | abort o    how it ended; fault: something was made to fail; id: the job it was tied to
     gone id                               somebody asked about the process and learned that it is gone
     stop o | cancel id user | signal id s t alive | stopped o raised fault nofiles dirty alive
     check os ok answers got               one check, what the manager answered, and what was reported (<<>>: failed)
     chown                                 the owner of a file outside the cluster's directory was changed
     end left                              objects of which files are left *)
EXTENDS Jobs, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, ph, job, canc, lost, sent, gone, bad
vars == <<t, l, ph, job, canc, lost, sent, gone, bad>>
X == Traces[t]
Tr == X.events
ev == Tr[l]
N == DOMAIN X.objs
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ lost = {} /\ gone = {}
        /\ ph = [o \in DOMAIN Traces[t].objs |-> "new"] /\ job = [o \in DOMAIN Traces[t].objs |-> 0]
        /\ canc = [o \in DOMAIN Traces[t].objs |-> 0] /\ sent = [o \in DOMAIN Traces[t].objs |-> <<>>]
Q(b, what) == IF b THEN {} ELSE {[what |-> what, at |-> l]}
Range(q) == {q[i] : i \in DOMAIN q}
OwnerOf(id) == {o \in N : job[o] = id /\ id # 0}
Submission ==
  IF ev.o = 0 THEN Q(FALSE, "a job is submitted that belongs to nothing")
  ELSE Q(ph[ev.o] = "starting" \/ ev.o \in lost, "a job is submitted that nobody asked for")
       \cup Q(job[ev.o] = 0, "a job is submitted twice")
       \cup Q(ev.user, "a job is submitted as someone else")
       \cup Q(ev.asked.cores < 0 \/ Fits(ev.asked, X.objs[ev.o]), "other resources are requested than configured")
       \cup Q(ev.wrong = <<>>, "a job is submitted wrongly")
Ended ==
  LET j == job[ev.o] IN
       Q(~ev.raised \/ ev.fault, "a stop fails for no reason")
       \cup Q(ev.o \in lost \/ j = 0 \/ X.local \/ ev.nolaunch \/ canc[ev.o] = 1, "a job is not cancelled")
       \cup Q(ev.o \in lost \/ ~ev.dirty \/ ev.nofiles \/ ev.nolaunch, "files are left behind")
       \cup Q(~X.local \/ ~ev.alive, "a process is left running")
Why ==
  CASE ev.e = "submit" -> Submission
    [] ev.e = "started" -> Q(job[ev.o] # 0 /\ ev.id = job[ev.o], "a started object is not tied to its job")
    [] ev.e = "failed" -> Q(ev.fault, "a start fails for no reason") \cup Q(job[ev.o] = 0 \/ ev.o \in lost, "a start fails though its job was accepted")
    [] ev.e = "cancel" ->
         LET own == OwnerOf(ev.id) IN
         IF own = {} THEN Q(FALSE, "a job is cancelled that belongs to nothing")
         ELSE LET o == CHOOSE x \in own : TRUE IN
              Q(ph[o] = "stopping", "the job of something that is not being stopped is cancelled")
              \cup Q(canc[o] = 0, "a job is cancelled twice") \cup Q(ev.user, "a job is cancelled as someone else")
    [] ev.e = "signal" ->
         LET own == OwnerOf(ev.id) IN
         IF own = {} THEN Q(FALSE, "another's process gets a signal")
         ELSE LET o == CHOOSE x \in own : TRUE IN
              Q(ph[o] = "stopping", "a process gets a signal that is not being stopped")
              \cup Q(o \notin gone, "a process gets a signal that is known to be gone")
              \cup Q(~ev.alive \/ MaySignal(sent[o], ev.s, ev.t, X.patience), "a process gets a signal before its time")
    [] ev.e = "stopped" -> Ended
    [] ev.e = "check" -> Q(Honest(ev.answers, ev.ok, ev.got), "a check reports something else than the manager")
    [] ev.e = "chown" -> Q(FALSE, "files elsewhere get another owner")
    [] ev.e = "end" -> Q(Range(ev.left) \subseteq lost, "files are left behind")
    [] OTHER -> {}
Apply ==
  CASE ev.e = "start" -> ph' = [ph EXCEPT ![ev.o] = "starting"] /\ UNCHANGED <<job, canc, lost, sent, gone>>
    [] ev.e = "submit" /\ ev.id # 0 /\ ev.o # 0 -> job' = [job EXCEPT ![ev.o] = ev.id] /\ UNCHANGED <<ph, canc, lost, sent, gone>>
    [] ev.e = "started" -> ph' = [ph EXCEPT ![ev.o] = "up"] /\ UNCHANGED <<job, canc, lost, sent, gone>>
    [] ev.e = "failed" -> ph' = [ph EXCEPT ![ev.o] = "failed"] /\ UNCHANGED <<job, canc, lost, sent, gone>>
    [] ev.e = "abort" -> ph' = [ph EXCEPT ![ev.o] = "failed"] /\ lost' = (IF ev.excused THEN lost \cup {ev.o} ELSE lost) /\ UNCHANGED <<job, canc, sent, gone>>
    [] ev.e = "stop" -> /\ ph' = [ph EXCEPT ![ev.o] = "stopping"] /\ canc' = [canc EXCEPT ![ev.o] = 0]
                        /\ sent' = [sent EXCEPT ![ev.o] = <<>>] /\ gone' = gone \ {ev.o} /\ UNCHANGED <<job, lost>>
    [] ev.e = "cancel" -> canc' = [o \in N |-> IF o \in OwnerOf(ev.id) THEN canc[o] + 1 ELSE canc[o]] /\ UNCHANGED <<ph, job, lost, sent, gone>>
    [] ev.e = "signal" -> sent' = [o \in N |-> IF o \in OwnerOf(ev.id) THEN Append(sent[o], [s |-> ev.s, t |-> ev.t]) ELSE sent[o]] /\ UNCHANGED <<ph, job, lost, canc, gone>>
    [] ev.e = "gone" -> gone' = gone \cup OwnerOf(ev.id) /\ UNCHANGED <<ph, job, canc, lost, sent>>
    [] ev.e = "stopped" -> ph' = [ph EXCEPT ![ev.o] = "stopped"] /\ UNCHANGED <<job, canc, lost, sent, gone>>
    [] OTHER -> UNCHANGED <<ph, job, canc, lost, sent, gone>>
Verdict == PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, at |-> l, why |-> bad]))
Step == bad = {} /\ l \in 1..Len(Tr) /\ UNCHANGED t /\ bad' = bad \cup Why /\ l' = (IF bad' = {} THEN l + 1 ELSE l) /\ Apply
Reject == bad # {} /\ l > 0 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, ph, job, canc, lost, sent, gone, bad>>
Accept == bad = {} /\ l = Len(Tr) + 1 /\ Verdict /\ l' = 0 /\ UNCHANGED <<t, ph, job, canc, lost, sent, gone, bad>>
Next == Step \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
