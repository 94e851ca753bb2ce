------------------------------- MODULE Tasks -------------------------------
(* Stopping groups of tasks.

   A task belongs to the group while it is inside one of the group's sections (CancelGroup) or
   from its start to its end (TaskPool).  Stopping the group interrupts every task inside, and
   returns when none of those is inside any more; from then on nobody enters.  A task may take
   its time to end, and may even ignore the interruption for a while.  Tasks outside are left
   alone.

   State of the group: [phase: open / stopping / stopped, inside, hit (interrupted tasks), owed]. *)
EXTENDS Integers, FiniteSets
NewGroup == [phase |-> "open", inside |-> {}, hit |-> {}, left |-> {}]
MayEnter(g) == g.phase = "open"
Enter(g, i) == [g EXCEPT !.inside = @ \cup {i}]
Leave(g, i) == [g EXCEPT !.inside = @ \ {i}, !.left = @ \cup {i}]
StopCall(g) == [g EXCEPT !.phase = "stopping", !.hit = g.inside]
(* the tasks that the stop still waits for *)
Owed(g) == g.inside \cap g.hit
MayReturn(g) == g.phase = "stopping" /\ Owed(g) = {}
StopReturn(g) == [g EXCEPT !.phase = "stopped"]
MayInterrupt(g, i) == g.phase # "open" /\ i \in g.hit
=============================================================================
