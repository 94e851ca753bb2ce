----------------------------- MODULE GatewayGen -----------------------------
(* Scripts for the real gateway: random behaviours of Gateway under an environment of users,
   a scheduler that reports its workers, backend callbacks, crashes and shutdown.  The events
   chosen at rest are collected in hist and printed when the script is long enough. *)
EXTENDS GatewayEvents, Json, IOUtils

\* [cfg, kinds (a sequence: repeated kinds are likelier), clusters, steps]
G == JsonDeserialize(IOEnv.GEN_FILE)
MaxClusters == G.clusters
Steps == G.steps
VARIABLES s, sch, hist, tgt, kind

Init == s = InitState(G.cfg, 0) /\ sch = Empty /\ hist = <<>> /\ tgt = 1 /\ kind = "start"

Busy == CanDispatch(s) \/ NextDue(s) <= tgt
Run == Busy /\ UNCHANGED <<sch, hist, tgt, kind>>
       /\ IF CanDispatch(s) THEN s' = Dispatch(s) ELSE s' \in FireAt(s, NextDue(s))

Alive == {c \in DOMAIN s.cl : TRUE}
Sees(c, k) == {w \in DOMAIN sch : sch[w] = k /\ w \in DOMAIN s.wk /\ s.wk[w].c = c}
SeqOf(S) == SelectSeq(s.worder, LAMBDA w : w \in S)
\* every event of a kind that makes sense now
Begun == Cardinality({k \in 1..Len(hist) : hist[k].e = "start"})
NextC == "c" \o ToString(Begun + 1)
Events(k) ==
  CASE k = "start" -> IF s.closing \/ Begun >= MaxClusters THEN {} ELSE {[e |-> "start", c |-> NextC, user |-> u, max |-> m] : u \in {"al", "bo"}, m \in {-1, 1, 2}}
    [] k = "stop" -> IF s.closing THEN {} ELSE {[e |-> "stop", c |-> c, via |-> v] : c \in Alive, v \in {"user", "token"}}
    [] k = "fail" -> IF s.closing THEN {} ELSE {[e |-> "fail", c |-> c] : c \in Alive}
    [] k = "hb" -> IF s.closing THEN {} ELSE
         {[e |-> "hb", c |-> c, m |-> [count |-> n, active |-> SeqOf(Sees(c, "active")),
             closing |-> SeqOf(Sees(c, "closing")), closed |-> SeqOf(Sees(c, "closed")), addr |-> 7, dash |-> TRUE]]
            : c \in {d \in Alive : d \in DOMAIN s.hstart \/ s.cl[d].status > CREATED}, n \in 0..3}
    [] k = "yield" -> {[e |-> "yield", o |-> o, k |-> s.now + 1] : o \in {p \in DOMAIN s.call : s.call[p].op = "start"}}
    [] k = "started" -> {[e |-> "started", o |-> o, ok |-> TRUE] : o \in {p \in DOMAIN s.call : s.call[p].op = "start"}}
    [] k = "startfail" -> {[e |-> "started", o |-> o, ok |-> FALSE] : o \in {p \in DOMAIN s.call : s.call[p].op = "start"}}
    [] k = "stopped" -> {[e |-> "stopped", o |-> o, ok |-> b] : o \in {p \in DOMAIN s.call : s.call[p].op = "stop"}, b \in BOOLEAN}
    [] k = "checked" -> IF s.chk = <<>> THEN {} ELSE {[e |-> "checked", dead |-> SelectSeq(s.chk, LAMBDA c : c \in d)] : d \in SUBSET Range(s.chk)}
    [] k = "wchecked" -> IF s.wchk = <<>> THEN {} ELSE {[e |-> "wchecked", dead |-> SelectSeq(s.wchk, LAMBDA c : c \in d)] : d \in SUBSET Range(s.wchk)}
    [] k = "crash" -> {[e |-> "crash"]}
    [] k = "shutdown" -> IF s.closing THEN {} ELSE {[e |-> "shutdown"]}
    [] OTHER -> {[e |-> "wait"]}

\* the scheduler's view moves on by itself
Moves == {[sch EXCEPT ![w] = IF @ = "active" THEN "closing" ELSE "closed"] : w \in {v \in DOMAIN sch : sch[v] \in {"active", "closing"}}}
         \cup {[sch EXCEPT ![w] = "closed"] : w \in {v \in DOMAIN sch : sch[v] = "active"}}
         \cup {With(sch, w, "active") : w \in {v \in DOMAIN s.wk \ DOMAIN sch : v \in DOMAIN s.hstart}}
Sched == ~Busy /\ kind = "sched" /\ sch' \in Moves /\ kind' = G.kinds[RandomElement(1..Len(G.kinds))] /\ UNCHANGED <<s, hist, tgt>>
Skip == ~Busy /\ (IF kind = "sched" THEN Moves = {} ELSE Events(kind) = {}) /\ kind' = G.kinds[RandomElement(1..Len(G.kinds))]
        /\ UNCHANGED <<s, sch, hist, tgt>>
Act == /\ ~Busy /\ kind # "sched" /\ Len(hist) < Steps
       /\ \E ev \in {RandomElement(Events(kind))} :
            /\ s' = Apply([s EXCEPT !.now = tgt], With(ev, "now", tgt))
            /\ hist' = Append(hist, With(ev, "now", tgt))
            /\ sch' = IF ev.e = "hb" THEN [w \in DOMAIN sch |-> IF w \in Sees(ev.c, "closed") THEN "gone" ELSE sch[w]] ELSE sch
       /\ tgt' = tgt + RandomElement({0, 0, 1, 1, 1, 2, 3, 5, 13})
       /\ kind' = G.kinds[RandomElement(1..Len(G.kinds))]
Next == (Events(kind) # {} /\ Act) \/ Run \/ Sched \/ Skip
GSpec == Init /\ [][Next]_<<s, sch, hist, tgt, kind>>
Emit == Len(hist) = Steps => PrintT("@@" \o ToJson(hist))
Stop == Len(hist) < Steps
=============================================================================
