--------------------------- MODULE ProxyFollower ---------------------------
(* The proxy process following the gateway's route table (cmd/dask-gateway-proxy):
   list, then watch from the listed id, applying events; resume from the last applied id
   when a stream ends; list again when told to refresh or after any failure.
   The gateway keeps a suffix of its log and may restart with an empty table.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Keys, Vals, MaxLog, MaxInc, Faults
VARIABLES inc, log, kept, mode, id, tbl, budget
vars == <<inc, log, kept, mode, id, tbl, budget>>
Absent == "-"
Empty == [k \in Keys |-> Absent]
Apply(s, c) == [s EXCEPT ![c[1]] = c[2]]
Table == FoldLeft(Apply, Empty, log)

Init == inc = 0 /\ log = <<>> /\ kept = 0 /\ mode = "list" /\ id = <<-1, 0>> /\ tbl = Empty /\ budget = Faults

Change == /\ Len(log) < MaxLog
          /\ \E k \in Keys, v \in Vals \cup {Absent} : (v # Absent \/ Table[k] # Absent) /\ log' = Append(log, <<k, v>>)
          /\ kept' \in {kept, Len(log)}
          /\ UNCHANGED <<inc, mode, id, tbl, budget>>
Restart == /\ inc < MaxInc /\ inc' = inc + 1 /\ log' = <<>> /\ kept' = 0
           \* a broken stream: the process resumes (clean end) or lists (failed to resume)
           /\ mode' \in IF mode = "stream" THEN {"watch", "list"} ELSE {mode}
           /\ UNCHANGED <<id, tbl, budget>>
Fault == budget > 0 /\ budget' = budget - 1
List == /\ mode = "list" /\ tbl' = Table /\ id' = <<inc, Len(log)>> /\ mode' = "watch"
        /\ UNCHANGED <<inc, log, kept, budget>>
ListFails == mode = "list" /\ Fault /\ UNCHANGED <<inc, log, kept, mode, id, tbl>>
Valid == id[1] = inc /\ id[2] >= kept
Watch == /\ mode = "watch" /\ mode' = IF Valid THEN "stream" ELSE "list"
         /\ UNCHANGED <<inc, log, kept, id, tbl, budget>>
WatchFails == mode = "watch" /\ Fault /\ mode' = "list" /\ UNCHANGED <<inc, log, kept, id, tbl>>
Deliver == /\ mode = "stream"
           /\ \E n \in 1..(Len(log) - id[2]) :
                /\ tbl' = FoldLeft(Apply, tbl, SubSeq(log, id[2] + 1, id[2] + n))
                /\ id' = <<inc, id[2] + n>>
           /\ UNCHANGED <<inc, log, kept, mode, budget>>
Ends == mode = "stream" /\ Fault /\ mode' \in {"watch", "list"} /\ UNCHANGED <<inc, log, kept, id, tbl>>

Next == Change \/ Restart \/ List \/ ListFails \/ Watch \/ WatchFails \/ Deliver \/ Ends
Spec == Init /\ [][Next]_vars /\ WF_vars(List) /\ WF_vars(Watch) /\ WF_vars(Deliver)

\* a streaming process serves exactly the table as of its position
Faithful == mode = "stream" => tbl = FoldLeft(Apply, Empty, SubSeq(log, 1, id[2]))
Converges == <>[](tbl = Table)
=============================================================================
