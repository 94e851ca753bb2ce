----------------------------- MODULE TasksTrace -----------------------------
(* Real tasks in a real CancelGroup, TaskPool, or stopped with cancel_task.
   A trace: events  enter i / refused i / leave i / fin i (a member of a group ended) / end i / hit i / stop / stopped / end0 (the run is over),
   each with the moment `at`. *)
EXTENDS Tasks, TLC, Sequences, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, g, got, fin, since
vars == <<t, l, g, got, fin, since>>
Tr == Traces[t]
ev == Tr[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ g = NewGroup /\ got = {} /\ fin = {} /\ since = 0
Q(b, what) == IF b THEN {} ELSE {what}
(* it may wait for the whole of a task that was interrupted inside a section *)
Timely == Q(~(g.phase = "stopping" /\ g.hit \subseteq fin) \/ ev.at = since, "stopping did not return once its tasks had ended")
Why ==
  Timely \cup
  CASE ev.e = "enter" -> Q(MayEnter(g), "a task entered a stopped group")
    [] ev.e = "refused" -> Q(~MayEnter(g), "a task could not enter an open group")
    [] ev.e = "hit" -> Q(MayInterrupt(g, ev.i), "a task outside the group was interrupted")
    [] ev.e = "stopped" -> Q(MayReturn(g), "stopping returned although a task of the group was running")
    [] ev.e = "over" -> Q(g.hit \ got \subseteq g.left, "a task of the stopped group was not interrupted")
                        \cup Q(g.phase # "stopping", "stopping never returned")
    [] OTHER -> {}
Verdict(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why]))
Apply ==
  /\ g' = CASE ev.e = "enter" -> Enter(g, ev.i) [] ev.e \in {"leave", "end"} -> Leave(g, ev.i)
            [] ev.e = "stop" -> StopCall(g) [] ev.e = "stopped" -> StopReturn(g) [] OTHER -> g
  /\ got' = IF ev.e = "hit" THEN got \cup {ev.i} ELSE got
  /\ fin' = IF ev.e \in {"fin", "end"} THEN fin \cup {ev.i} ELSE fin
  /\ since' = ev.at
Step == /\ l \in 1..Len(Tr) /\ UNCHANGED t
        /\ IF Why = {} THEN l' = l + 1 /\ Apply ELSE Verdict(FALSE, Why) /\ l' = 0 /\ UNCHANGED <<g, got, fin, since>>
Accept == l = Len(Tr) + 1 /\ Verdict(TRUE, {}) /\ l' = 0 /\ UNCHANGED <<t, g, got, fin, since>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
