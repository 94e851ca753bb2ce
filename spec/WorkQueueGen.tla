---------------------------- MODULE WorkQueueGen ----------------------------
(* Behaviours of WorkQueue as driver scripts for the real queue (tlc -simulate):
   the environment's steps are recorded, the queue's own steps (Resume, Fire) are not. *)
EXTENDS WorkQueue, Json
CONSTANT Depth
VARIABLE hist
H(x) == hist' = Append(hist, x)
GInit == Init /\ hist = <<>>
GNext == \/ \E i \in Items : \/ Put(i) /\ H(<<"put", i>>)
                             \/ Done(i) /\ H(<<"done", i>>)
                             \/ PutBackoff(i) /\ H(<<"put_backoff", i>>)
                             \/ fails[i] > 0 /\ ResetBackoff(i) /\ H(<<"reset", i>>)
         \/ \E i \in Items, d \in Delays : PutAfter(i, d) /\ H(<<"put_after", i, d>>)
         \/ \E c \in Consumers : GetStart(c) /\ H(<<"get", c>>)
         \/ \E c \in Consumers : Cancel(c) /\ H(<<"cancel", c>>)
         \/ Tick /\ H(<<"tick">>)
         \/ Close /\ Len(hist) > (3 * Depth) \div 4 /\ H(<<"close">>)
         \/ Internal /\ H(<<"run">>)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Stop == Len(hist) <= Depth
=============================================================================
