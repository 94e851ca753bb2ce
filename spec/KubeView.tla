------------------------------ MODULE KubeView ------------------------------
(* What the gateway on Kubernetes may answer, given what the API server has told it.

   The server keeps versions 1, 2, ... of every cluster resource; the gateway has been told of
   version `seen` and has its answers from some version in low..seen, where low is the last one it
   is known to have taken in.  It takes a version in as soon as it has the credentials for it. *)
EXTENDS Integers, FiniteSets
Over == {"Stopped", "Failed"}
Done == {"Running", "gone"} \cup Over                 \* a waiting request has its answer
Live == {"none", "Pending", "Running"}
Shown(phase) == CASE phase \in {"none", "Pending"} -> "PENDING" [] phase = "Running" -> "RUNNING"
                  [] phase = "Stopped" -> "STOPPED" [] OTHER -> "FAILED"
Low(a, b) == IF a < b THEN a ELSE b
(* credentials are read once, when the resource first names them, unless the cluster is over *)
NeedsRead(phase, named, have) == phase \in Live /\ named /\ ~have
(* who may act on a cluster: its owner, or who presents the token that was read from its credentials *)
MayAct(user, owner, token, haveToken) == (user # "" /\ user = owner) \/ (token = "right" /\ haveToken)
(* requested replicas *)
Capped(n, max) == IF max < 0 THEN n ELSE Low(n, max)
(* a waiting request: asked at t0, progress known at p (-1: not), answered at t1, in ms *)
Patience == 20000
WaitedEnough(progressed, t0, t1) == progressed \/ t1 - t0 >= Patience - 5
WaitedTooLong(t0, since, t1) == t1 > t0 + Patience + 60 \/ (since >= 0 /\ t1 > (IF since > t0 THEN since ELSE t0) + 60)
=============================================================================
