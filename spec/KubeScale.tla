------------------------------ MODULE KubeScale ------------------------------
(* How many worker pods the controller may and must have, seen from the API server.

   The controller knows a pod once its creation was answered or the pod was seen in a list or
   a watch; what it knows of the pod's state is what it saw last.  Pods it knows and has not
   seen finished, together with creations on their way, never exceed the replicas it was asked
   for when it decided -- whatever else is the case at the server by then. *)
EXTENDS Integers, FiniteSets
Unfinished == {"pending", "running", "other"}      \* other: between two starts of the container
MayCreate(known, flying, wanted) == known + flying < wanted
MayDelete(seen, left, wanted) ==
  \/ seen = "done"
  \/ seen \in {"pending", "other", "none"} /\ left > wanted
(* nothing changes any more: n unfinished pods, of which idle ones were never started *)
Settled(n, idle, finished, wanted) == n >= wanted /\ (n > wanted => idle = 0) /\ finished = 0
=============================================================================
