----------------------------- MODULE InformerMC -----------------------------
(* The list-and-watch loop against a server whose stream may end, break or expire at any time. *)
EXTENDS Informer, TLC
CONSTANTS Names, MaxVer, MaxFaults
VARIABLES log,      \* the server's changes: [n, v, del]
          floor,    \* versions up to here are forgotten
          st,       \* "list", "watch" or "stream"
          pos, told, mark, faults, relisted
vars == <<log, floor, st, pos, told, mark, faults, relisted>>
Now == Len(log)
Hist == [n \in Names |-> SelectSeq(log, LAMBDA x : x.n = n)]
Server == [n \in Names |-> IF Hist[n] = <<>> \/ Hist[n][Len(Hist[n])].del THEN 0 ELSE Hist[n][Len(Hist[n])].v]
Init == log = <<>> /\ floor = 0 /\ st = "list" /\ pos = 0 /\ told = [n \in Names |-> 0] /\ mark = [n \in Names |-> 0]
        /\ faults = 0 /\ relisted = 0
Change(n) ==
  /\ Now < MaxVer
  /\ \E del \in {TRUE, FALSE} : (del => Server[n] # 0) /\ log' = Append(log, [n |-> n, v |-> Now + 1, del |-> del])
  /\ UNCHANGED <<floor, st, pos, told, mark, faults, relisted>>
Compact == floor < Now /\ faults < MaxFaults /\ faults' = faults + 1 /\ floor' = Now /\ UNCHANGED <<log, st, pos, told, mark, relisted>>
ListOk ==
  /\ st = "list" /\ st' = "watch" /\ pos' = Now /\ told' = Server /\ relisted' = 1
  /\ mark' = [n \in Names |-> IF Server[n] # 0 THEN Server[n] ELSE IF told[n] # 0 THEN Now ELSE mark[n]]
  /\ UNCHANGED <<log, floor, faults>>
ListErr == st = "list" /\ faults < MaxFaults /\ faults' = faults + 1 /\ UNCHANGED <<log, floor, st, pos, told, mark, relisted>>
Open == st = "watch" /\ st' = (IF pos < floor THEN "list" ELSE "stream") /\ UNCHANGED <<log, floor, pos, told, mark, faults, relisted>>
Event ==
  /\ st = "stream" /\ pos < Now
  /\ LET x == log[pos + 1]
     IN told' = [told EXCEPT ![x.n] = IF x.del THEN 0 ELSE x.v] /\ mark' = [mark EXCEPT ![x.n] = x.v] /\ pos' = pos + 1
  /\ UNCHANGED <<log, floor, st, faults, relisted>>
End == st = "stream" /\ st' = "watch" /\ faults < MaxFaults /\ faults' = faults + 1 /\ UNCHANGED <<log, floor, pos, told, mark, relisted>>
Broken == st \in {"stream", "watch"} /\ st' = "list" /\ faults < MaxFaults /\ faults' = faults + 1 /\ UNCHANGED <<log, floor, pos, told, mark, relisted>>
Next == (\E n \in Names : Change(n)) \/ Compact \/ ListOk \/ ListErr \/ Open \/ Event \/ End \/ Broken
Spec == Init /\ [][Next]_vars /\ WF_vars(ListOk) /\ WF_vars(Open) /\ WF_vars(Event)
(* what is cached was once true, and never gets older *)
Valid == \A n \in Names : told[n] # 0 => Existed(Hist, n, told[n])
Forward == [][\A n \in Names : told'[n] = 0 \/ told'[n] >= told[n]]_vars
Lawful == [][\A n \in Names : told'[n] # told[n] =>
               IF told'[n] = 0 THEN MayTellDelete(told, Hist, n) ELSE MayTellUpdate(told, mark, Hist, n, told'[n])]_vars
(* when changes and faults stop (they are bounded here), the copy equals the server *)
Converges == <>[](told = Server)
=============================================================================
