------------------------------- MODULE Relay -------------------------------
(* A relayed connection: two directions, cb (client to backend) and bc.  Each endpoint may
   stop sending (half close).  The proxy runs one copy loop per direction; when its source is
   exhausted the loop closes the write side of its destination.  When both loops are done
   both connections are closed.  `Swapped` closes the opposite direction instead.         *)
EXTENDS Integers, TLC
CONSTANTS Max, Swapped
Dirs == {"cb", "bc"}
Other(d) == IF d = "cb" THEN "bc" ELSE "cb"
VARIABLES sent,     \* bytes written by the source endpoint
          copied,   \* bytes the proxy passed on
          got,      \* bytes read by the destination endpoint
          shut,     \* source endpoint stopped sending
          wclosed,  \* proxy closed the write side towards the destination
          rclosed,  \* proxy no longer reads the source
          done,     \* copy loop ended
          eof       \* destination endpoint saw the end
vars == <<sent, copied, got, shut, wclosed, rclosed, done, eof>>
Z == [d \in Dirs |-> 0]
F == [d \in Dirs |-> FALSE]
Init == sent = Z /\ copied = Z /\ got = Z /\ shut = F /\ wclosed = F /\ rclosed = F /\ done = F /\ eof = F
Send(d) == ~shut[d] /\ sent[d] < Max /\ sent' = [sent EXCEPT ![d] = @ + 1]
           /\ UNCHANGED <<copied, got, shut, wclosed, rclosed, done, eof>>
Shut(d) == ~shut[d] /\ shut' = [shut EXCEPT ![d] = TRUE] /\ UNCHANGED <<sent, copied, got, wclosed, rclosed, done, eof>>
Copy(d) == /\ ~done[d] /\ ~rclosed[d] /\ copied[d] < sent[d]
           /\ copied' = [copied EXCEPT ![d] = @ + 1]
           /\ UNCHANGED <<sent, got, shut, wclosed, rclosed, done, eof>>
\* the source is exhausted (or is not read any more)
Finish(d) == LET e == IF Swapped THEN Other(d) ELSE d IN
             /\ ~done[d] /\ (rclosed[d] \/ (shut[d] /\ copied[d] = sent[d]))
             /\ done' = [done EXCEPT ![d] = TRUE]
             /\ wclosed' = IF done[Other(d)] THEN [x \in Dirs |-> TRUE] ELSE [wclosed EXCEPT ![e] = TRUE]
             /\ rclosed' = IF done[Other(d)] THEN [x \in Dirs |-> TRUE] ELSE [rclosed EXCEPT ![e] = TRUE]
             /\ UNCHANGED <<sent, copied, got, shut, eof>>
Read(d) == got[d] < copied[d] /\ got' = [got EXCEPT ![d] = @ + 1]
           /\ UNCHANGED <<sent, copied, shut, wclosed, rclosed, done, eof>>
ReadEof(d) == got[d] = copied[d] /\ wclosed[d] /\ ~eof[d] /\ eof' = [eof EXCEPT ![d] = TRUE]
              /\ UNCHANGED <<sent, copied, got, shut, wclosed, rclosed, done>>
Next == \E d \in Dirs : Send(d) \/ Shut(d) \/ Copy(d) \/ Finish(d) \/ Read(d) \/ ReadEof(d)
Spec == Init /\ [][Next]_vars
        /\ \A d \in Dirs : WF_vars(Copy(d)) /\ WF_vars(Finish(d)) /\ WF_vars(Read(d)) /\ WF_vars(ReadEof(d))
\* the end is seen only after everything sent, and only if the sender stopped
NoLoss == \A d \in Dirs : eof[d] => shut[d] /\ got[d] = sent[d]
Delivered == \A d \in Dirs : []<>(got[d] = sent[d]) /\ (shut[d] ~> eof[d])
=============================================================================
