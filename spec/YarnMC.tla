------------------------------- MODULE YarnMC -------------------------------
(* Every order of submissions, failures, aborted starts, applications and containers that end, gateway restarts, stops and checks. *)
EXTENDS Yarn, TLC
CONSTANTS Clusters, Workers, OwnerOf, MaxStops, Isolated, ByCluster
\* Isolated: an application that can't be asked spoils the answers about its own workers only
\* ByCluster: a container is looked for in its cluster's application (its number alone does not name it)
VARIABLES ph, rec, apps, known, lost, uncut, rep, stops
vars == <<ph, rec, apps, known, lost, uncut, rep, stops>>
Split == [w \in Workers |-> IF w = "w1" THEN "c1" ELSE "c2"]
Together == [w \in Workers |-> "c1"]
Objs == Clusters \cup Workers
Zero == 0                                  \* no application
App(c) == IF rec[c] = Zero THEN [by |-> c, st |-> "none", conts |-> <<>>] ELSE apps[rec[c]]
Init == /\ ph = [o \in Objs |-> "new"] /\ rec = [o \in Objs |-> Zero] /\ apps = <<>> /\ known = {}
        /\ lost = {} /\ uncut = {} /\ rep = [w \in Workers |-> "none"] /\ stops = 0
Begin(o) == /\ ph[o] = "new" /\ (o \in Workers => ph[OwnerOf[o]] = "up" /\ App(OwnerOf[o]).st = "RUNNING")
            /\ ph' = [ph EXCEPT ![o] = "starting"] /\ UNCHANGED <<rec, apps, known, lost, uncut, rep, stops>>
Refused(o) == ph[o] = "starting" /\ ph' = [ph EXCEPT ![o] = "failed"] /\ UNCHANGED <<rec, apps, known, lost, uncut, rep, stops>>
Submit(c) == /\ ph[c] = "starting" /\ apps' = Append(apps, [by |-> c, st |-> "SUBMITTED", conts |-> <<>>])
             /\ ph' = [ph EXCEPT ![c] = "answer"] /\ UNCHANGED <<rec, known, lost, uncut, rep, stops>>
\* the client of an application is found from what was recorded of the cluster, and kept
Add(w) == LET c == OwnerOf[w] IN
  /\ ph[w] = "starting" /\ rec[c] # Zero /\ App(c).st = "RUNNING"
  /\ apps' = [apps EXCEPT ![rec[c]].conts = Append(@, [by |-> w, st |-> "alive"])] /\ known' = known \cup {c}
  /\ ph' = [ph EXCEPT ![w] = "answer"] /\ UNCHANGED <<rec, lost, uncut, rep, stops>>
Mine(o) == IF o \in Clusters THEN {a \in DOMAIN apps : apps[a].by = o}
           ELSE {n \in DOMAIN App(OwnerOf[o]).conts : App(OwnerOf[o]).conts[n].by = o}
Record(o) == ph[o] = "answer" /\ rec' = [rec EXCEPT ![o] = CHOOSE x \in Mine(o) : TRUE] /\ ph' = [ph EXCEPT ![o] = "up"] /\ UNCHANGED <<apps, known, lost, uncut, rep, stops>>
\* a crash or a timeout in between: nobody knows what was started (an accepted limit; containers still end with their application)
Abort(o) == ph[o] \in {"starting", "answer"} /\ ph' = [ph EXCEPT ![o] = "failed"] /\ lost' = lost \cup {o} /\ UNCHANGED <<rec, apps, known, uncut, rep, stops>>
Restart == known # {} /\ known' = {} /\ UNCHANGED <<ph, rec, apps, lost, uncut, rep, stops>>
Runs(a) == apps[a].st = "SUBMITTED" /\ apps' = [apps EXCEPT ![a].st = "RUNNING"] /\ UNCHANGED <<ph, rec, known, lost, uncut, rep, stops>>
Dead(s) == [n \in DOMAIN s |-> [s[n] EXCEPT !.st = "dead"]]
Ends(a) == apps[a].st \in Alive /\ apps' = [apps EXCEPT ![a].st = "FAILED", ![a].conts = Dead(@)] /\ UNCHANGED <<ph, rec, known, lost, uncut, rep, stops>>
ContEnds(a, n) == apps[a].conts[n].st = "alive" /\ apps' = [apps EXCEPT ![a].conts[n].st = "dead"] /\ UNCHANGED <<ph, rec, known, lost, uncut, rep, stops>>
StopWorker(w, works) == LET c == OwnerOf[w] IN
  /\ ph[w] \in {"up", "failed"} /\ ph[c] = "up" /\ stops < MaxStops /\ stops' = stops + 1
  /\ ph' = [ph EXCEPT ![w] = "stopped"]
  /\ IF rec[w] = Zero THEN UNCHANGED <<apps, uncut, known>>
     ELSE \E a \in (IF ByCluster THEN {rec[c]} ELSE DOMAIN apps) :
          LET ok == works /\ apps[a].st = "RUNNING" /\ rec[w] \in DOMAIN apps[a].conts IN
          /\ apps' = IF ok THEN [apps EXCEPT ![a].conts[rec[w]].st = "dead"] ELSE apps
          /\ known' = IF ok THEN known \cup {c} ELSE known
          /\ uncut' = IF ok THEN uncut ELSE uncut \cup {w}
  /\ UNCHANGED <<rec, lost, rep>>
StopCluster(c, works) ==
  /\ ph[c] \in {"up", "failed"} /\ stops < MaxStops /\ stops' = stops + 1
  /\ ph' = [o \in Objs |-> IF o = c \/ (o \in Workers /\ OwnerOf[o] = c) THEN "stopped" ELSE ph[o]]
  /\ apps' = IF rec[c] # Zero /\ works /\ App(c).st \in Alive THEN [apps EXCEPT ![rec[c]].st = "KILLED", ![rec[c]].conts = Dead(@)] ELSE apps
  /\ uncut' = IF works THEN uncut ELSE uncut \cup {c}
  /\ known' = known \ {c} /\ UNCHANGED <<rec, lost, rep>>
\* one check of all workers that are up, with trouble in some applications; those that aren't running can't be asked either
Ups == {w \in Workers : ph[w] = "up"}
Check(trouble) ==
  LET mute == {c \in Clusters : c \in trouble \/ App(c).st # "RUNNING"}
      fails == ~Isolated /\ \E w \in Ups : OwnerOf[w] \in mute
      truth(w) == App(OwnerOf[w]).conts[rec[w]].st IN
  /\ Ups # {}
  /\ rep' = [w \in Workers |-> IF w \notin Ups THEN "none" ELSE IF fails THEN "failed" ELSE IF OwnerOf[w] \in mute THEN "any" ELSE truth(w)]
  /\ UNCHANGED <<ph, rec, apps, known, lost, uncut, stops>>
Next == \/ \E o \in Objs : Begin(o) \/ Refused(o) \/ Record(o) \/ Abort(o)
        \/ \E c \in Clusters : Submit(c) \/ \E b \in BOOLEAN : StopCluster(c, b)
        \/ \E w \in Workers : Add(w) \/ \E b \in BOOLEAN : StopWorker(w, b)
        \/ Restart \/ \E T \in SUBSET Clusters : Check(T)
        \/ \E a \in DOMAIN apps : Runs(a) \/ Ends(a) \/ \E n \in DOMAIN apps[a].conts : ContEnds(a, n)
Spec == Init /\ [][Next]_vars
OneEach == (\A c \in Clusters : Cardinality(Mine(c)) <= 1) /\ (\A w \in Workers : Cardinality(Mine(w)) <= 1)
Tied == /\ \A c \in Clusters : rec[c] # Zero => apps[rec[c]].by = c
        /\ \A w \in Workers : rec[w] # Zero => apps[rec[OwnerOf[w]]].conts[rec[w]].by = w
Where == \A a \in DOMAIN apps : \A n \in DOMAIN apps[a].conts : OwnerOf[apps[a].conts[n].by] = apps[a].by
\* nothing is left running of what was stopped and known, unless stopping it failed
NoOrphan == /\ \A c \in Clusters : ph[c] = "stopped" /\ c \notin lost \cup uncut => \A a \in Mine(c) : apps[a].st \notin Alive
            /\ \A w \in Workers : ph[w] = "stopped" /\ w \notin lost \cup uncut /\ OwnerOf[w] \notin uncut => \A n \in Mine(w) : App(OwnerOf[w]).conts[n].st = "dead"
\* a worker only ends with itself, its application, or when it is stopped
Own == [][\A w \in Workers : \A n \in Mine(w) :
            App(OwnerOf[w]).conts[n].st = "alive" /\ App(OwnerOf[w])'.conts[n].st = "dead" =>
               \/ stops' = stops
               \/ ph'[w] = "stopped" /\ ph[w] # "stopped"
               \/ ph'[OwnerOf[w]] = "stopped" /\ ph[OwnerOf[w]] # "stopped"]_vars
\* nothing is ever said to have failed for the trouble of another's application
Apart == \A w \in Workers : rep[w] # "failed"
=============================================================================
