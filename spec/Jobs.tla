-------------------------------- MODULE Jobs --------------------------------
(* What backends that submit jobs or start processes owe their clusters and workers (C27).
   The manager (Slurm, PBS, or the operating system) has jobs; every object has at most one. *)
EXTENDS Integers, Sequences, FiniteSets
\* one check of objects with these answers: 1 alive, 0 dead, 2 unknown to the manager; got: what was reported, <<>> if the check failed
Honest(asked, ok, got) ==
  IF ~ok THEN got = <<>> \/ \A i \in DOMAIN got : got[i] = 1
  ELSE IF \E i \in DOMAIN asked : asked[i] = 2
       THEN got = <<>> \/ (Len(got) = Len(asked) /\ \A i \in DOMAIN asked : asked[i] \in {0, 1} => got[i] = asked[i])
       ELSE got = asked
\* what is asked of the manager (in KiB and cores) is what was configured, rounded up by at most a tenth
Fits(asked, want) == asked.cores = want.cores /\ asked.mem >= want.mem /\ asked.mem - want.mem <= (want.mem \div 10) + 1
\* signals to a process: in this order, patience [INT, TERM, KILL] between them (ms)
Order == <<"INT", "TERM", "KILL">>
MaySignal(sent, s, now, patience) ==
  /\ Len(sent) < 3 /\ s = Order[Len(sent) + 1]
  /\ Len(sent) > 0 => now - sent[Len(sent)].t >= patience[Len(sent)]
=============================================================================
