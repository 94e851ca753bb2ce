------------------------------ MODULE TasksMC ------------------------------
(* Tasks as processes: they start, enter and leave sections, get interrupted, end. *)
EXTENDS Tasks
CONSTANTS N, Whole       \* Whole: a pool (a task is inside from start to end)
VARIABLES g, st          \* st: task -> new / out / in / dying / done
vars == <<g, st>>
Ts == 1..N
Init == g = NewGroup /\ st = [i \in Ts |-> "new"]
Start(i) == st[i] = "new" /\ (IF Whole THEN MayEnter(g) /\ g' = Enter(g, i) /\ st' = [st EXCEPT ![i] = "in"]
                              ELSE g' = g /\ st' = [st EXCEPT ![i] = "out"])
In(i) == ~Whole /\ st[i] = "out" /\ MayEnter(g) /\ g' = Enter(g, i) /\ st' = [st EXCEPT ![i] = "in"]
Out(i) == ~Whole /\ st[i] \in {"in", "dying"} /\ g' = Leave(g, i) /\ st' = [st EXCEPT ![i] = "out"]
Hit(i) == st[i] = "in" /\ MayInterrupt(g, i) /\ g.phase = "stopping" /\ st' = [st EXCEPT ![i] = "dying"] /\ g' = g
End(i) == st[i] \in {"in", "dying", "out"} /\ g' = Leave(g, i) /\ st' = [st EXCEPT ![i] = "done"]
Stop == g.phase = "open" /\ g' = StopCall(g) /\ UNCHANGED st
Return == MayReturn(g) /\ g' = StopReturn(g) /\ UNCHANGED st
Next == Stop \/ Return \/ \E i \in Ts : Start(i) \/ In(i) \/ Out(i) \/ Hit(i) \/ End(i)
Fair == /\ \A i \in Ts : WF_vars(st[i] = "dying" /\ End(i)) /\ WF_vars(Hit(i))
        /\ WF_vars(Return)
Spec == Init /\ [][Next]_vars /\ Fair
NoneLeft == g.phase = "stopped" => \A i \in Ts : st[i] \notin {"in", "dying"}
OutsideSafe == \A i \in Ts : st[i] = "dying" => i \in g.hit
Returns == (g.phase = "stopping") ~> (g.phase = "stopped")
=============================================================================
