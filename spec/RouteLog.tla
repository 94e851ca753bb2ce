------------------------------ MODULE RouteLog ------------------------------
(* The gateway's route table as offered to proxy processes (proxy/core.py).

   `log` is every change made since the gateway process started (one incarnation); the
   table is the log folded.  A snapshot carries the table and a position; a watch from a
   position streams the changes behind it, in order.  Only a suffix of the log needs to be
   kept: the follower of a position that is gone, that belongs to an earlier incarnation or
   that was never given out is told to refresh.
   Positions travel as ids; an id must mean one (incarnation, position) only.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Keys, Vals, Followers, Keep, MaxLog, MaxInc,
          Seeded      \* TRUE: ids of different incarnations never collide

VARIABLES inc, log, kept, fol

Absent == "-"
\* a follower: what it believes, the id (inc, pos) it holds, whether it is streaming
Fresh == [mode |-> "fresh", inc |-> -1, pos |-> -1, tbl |-> [k \in Keys |-> Absent], at |-> -1]

ApplyTo(tbl, c) == [tbl EXCEPT ![c[1]] = c[2]]
TableAt(p) == FoldLeft(ApplyTo, [k \in Keys |-> Absent], SubSeq(log, 1, p))
Table == TableAt(Len(log))

Init == inc = 0 /\ log = <<>> /\ kept = 0 /\ fol = [f \in Followers |-> Fresh]

Append1(c) == /\ Len(log) < MaxLog /\ log' = Append(log, c)
              \* any trimming is fine as long as Keep changes survive
              /\ kept' \in {q \in kept..Len(log) : Len(log) + 1 - q >= Keep \/ q = kept}
              /\ UNCHANGED <<inc, fol>>
Put(k, v) == Append1(<<k, v>>)
Del(k) == Table[k] # Absent /\ Append1(<<k, Absent>>)

List(f) == /\ fol[f].mode # "watching"
           /\ fol' = [fol EXCEPT ![f] = [mode |-> "held", inc |-> inc, pos |-> Len(log), tbl |-> Table, at |-> -1]]
           /\ UNCHANGED <<inc, log, kept>>
\* what the id the follower holds stands for in the current incarnation
Means(f) == IF fol[f].inc = inc \/ ~Seeded THEN fol[f].pos ELSE -1
Watch(f) == /\ fol[f].mode = "held" /\ Means(f) >= kept /\ Means(f) <= Len(log)
            /\ fol' = [fol EXCEPT ![f].mode = "watching", ![f].at = Means(f), ![f].inc = inc]
            /\ UNCHANGED <<inc, log, kept>>
Gone(f) == /\ fol[f].mode = "held" /\ ~(Means(f) >= kept /\ Means(f) <= Len(log))
           /\ fol' = [fol EXCEPT ![f] = Fresh] /\ UNCHANGED <<inc, log, kept>>
Recv(f) == /\ fol[f].mode = "watching"
           /\ \E n \in 1..(Len(log) - fol[f].at) :
                fol' = [fol EXCEPT ![f].at = @ + n, ![f].pos = fol[f].at + n,
                                   ![f].tbl = FoldLeft(ApplyTo, @, SubSeq(log, fol[f].at + 1, fol[f].at + n))]
           /\ UNCHANGED <<inc, log, kept>>
Drop(f) == /\ fol[f].mode = "watching" /\ fol' = [fol EXCEPT ![f].mode = "held", ![f].at = -1]
           /\ UNCHANGED <<inc, log, kept>>
\* the gateway process is replaced: a new table is built from nothing, streams end
Restart == /\ inc < MaxInc /\ inc' = inc + 1 /\ log' = <<>> /\ kept' = 0
           /\ fol' = [f \in Followers |-> IF fol[f].mode = "watching"
                                          THEN [fol[f] EXCEPT !.mode = "held", !.at = -1] ELSE fol[f]]

Next == \/ \E k \in Keys : Del(k) \/ \E v \in Vals : Put(k, v)
        \/ \E f \in Followers : List(f) \/ Watch(f) \/ Gone(f) \/ Recv(f) \/ Drop(f)
        \/ Restart
Fair == \A f \in Followers : WF_fol(Recv(f))
Spec == Init /\ [][Next]_<<inc, log, kept, fol>>

\* a streaming follower's table is the table as of its position; caught up, it is the table
Faithful == \A f \in Followers : fol[f].mode = "watching" => fol[f].tbl = TableAt(fol[f].at)
=============================================================================
