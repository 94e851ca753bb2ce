-------------------------------- MODULE Yarn --------------------------------
(* What the YARN backend owes its clusters and workers (C29): a cluster is one application, a worker
   is one container of its cluster's application. Containers are numbered within their application. *)
EXTENDS Integers, Sequences, FiniteSets
Alive == {"NEW", "NEW_SAVING", "SUBMITTED", "ACCEPTED", "RUNNING"}
Over == {"FINISHED", "FAILED", "KILLED"}
\* answers: 1 alive, 0 dead (or nothing was ever started), 2 could not be learnt, 3 changed meanwhile; got: what was reported, <<>> if the check failed
\* a check of clusters may fail if one can't be asked about, but nothing is dead that isn't known to be
HonestClusters(answers, got) ==
  \/ got = <<>> /\ \E i \in DOMAIN answers : answers[i] \in {2, 3}
  \/ Len(got) = Len(answers) /\ \A i \in DOMAIN answers : answers[i] # 3 => got[i] = (IF answers[i] = 2 THEN 1 ELSE answers[i])
\* of workers too, but the trouble of one application is not that of others: of its own workers anything may be said
HonestWorkers(answers, got) ==
  Len(got) = Len(answers) /\ \A i \in DOMAIN answers : answers[i] \in {0, 1} => got[i] = answers[i]
\* what is requested (KiB, cores) is what was configured, rounded up by at most a tenth
Fits(asked, want) == asked.cores = want.cores /\ asked.mem >= want.mem /\ asked.mem - want.mem <= (want.mem \div 10) + 1
=============================================================================
