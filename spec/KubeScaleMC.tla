----------------------------- MODULE KubeScaleMC -----------------------------
(* The controller's mechanism (counting expected creations and deletions until they are seen)
   against a server whose news arrive late, per pod, in any order. *)
EXTENDS KubeScale, Sequences, TLC
CONSTANTS MaxPods, Sizes, MaxScale, MaxFail,
          ByName     \* expected deletions are remembered by name (else only counted, as the code once did)
VARIABLES want,      \* replicas at the server
          wview,     \* as the controller sees them
          pods,      \* sequence: [st, seen, dying], seen: none / pending / running / done / gone; dying: asked to end
          creates, deletes, todo, err, scales, fails
vars == <<want, wview, pods, creates, deletes, todo, err, scales, fails>>
Ids == DOMAIN pods
Seen(S) == {i \in Ids : pods[i].seen \in S}
(* todo: the reconciliation under way: creations still to send (up to `goal` known pods), deletions still to send *)
Idle == [mode |-> "idle", n |-> 0, goal |-> 0, dels |-> {}]
Expect(S) == IF ByName THEN S ELSE Cardinality(S)
SawGone(i) == IF ByName THEN deletes \ {i} ELSE deletes - 1
Init == /\ want \in Sizes /\ wview = want /\ pods = <<>> /\ creates = 0 /\ deletes = Expect({}) /\ todo = Idle /\ err = FALSE
        /\ scales = 0 /\ fails = 0
(* expected deletions: names, or as many *)
Fulfilled == creates <= 0 /\ IF ByName THEN deletes = {} ELSE deletes <= 0
RECURSIVE Subsets(_, _)
Subsets(S, n) == IF n <= 0 THEN {{}} ELSE {s \cup {x} : s \in Subsets(S, n - 1), x \in S}
Decide ==
  /\ todo.mode = "idle" /\ Fulfilled
  /\ LET n == Cardinality(Seen({"pending", "running"}))
         fin == Seen({"done"})
     IN IF wview > n
        THEN /\ todo' = [mode |-> "busy", n |-> wview - n, goal |-> wview, dels |-> fin]
             /\ creates' = wview - n /\ deletes' = Expect(fin)
        ELSE /\ \E p \in {s \in SUBSET Seen({"pending"}) : Cardinality(s) = (IF n - wview < Cardinality(Seen({"pending"})) THEN n - wview ELSE Cardinality(Seen({"pending"})))} :
                  /\ p \cup fin # {}
                  /\ todo' = [mode |-> "busy", n |-> 0, goal |-> wview, dels |-> p \cup fin]
                  /\ deletes' = Expect(p \cup fin)
             /\ creates' = 0
  /\ UNCHANGED <<want, wview, pods, err, scales, fails>>
Create ==
  /\ todo.mode = "busy" /\ todo.n > 0 /\ Len(pods) < MaxPods
  /\ pods' = Append(pods, [st |-> "pending", seen |-> "none", dying |-> FALSE])
  /\ todo' = [todo EXCEPT !.n = @ - 1]
  /\ UNCHANGED <<want, wview, creates, deletes, err, scales, fails>>
CreateFails ==   \* an error: the rest of the batch is given up
  /\ todo.mode = "busy" /\ todo.n > 0 /\ fails < MaxFail /\ fails' = fails + 1
  /\ creates' = creates - todo.n /\ todo' = [todo EXCEPT !.n = 0]
  /\ UNCHANGED <<want, wview, pods, deletes, err, scales>>
Delete ==
  /\ todo.mode = "busy" /\ todo.n = 0
  /\ \E i \in todo.dels :
       /\ todo' = [todo EXCEPT !.dels = @ \ {i}]
       /\ IF pods[i].st = "gone" THEN UNCHANGED pods ELSE pods' = [pods EXCEPT ![i].dying = TRUE]
       /\ deletes' = IF pods[i].st = "gone" THEN SawGone(i) ELSE deletes   \* answered: not found
  /\ UNCHANGED <<want, wview, creates, err, scales, fails>>
Finish == todo.mode = "busy" /\ todo.n = 0 /\ todo.dels = {} /\ todo' = Idle /\ UNCHANGED <<want, wview, pods, creates, deletes, err, scales, fails>>
(* the world *)
Scale == scales < MaxScale /\ scales' = scales + 1 /\ want' \in Sizes /\ UNCHANGED <<wview, pods, creates, deletes, todo, err, fails>>
SeeScale == wview # want /\ wview' = want /\ UNCHANGED <<want, pods, creates, deletes, todo, err, scales, fails>>
PodRuns(i) == pods[i].st = "pending" /\ pods' = [pods EXCEPT ![i].st = "running"] /\ UNCHANGED <<want, wview, creates, deletes, todo, err, scales, fails>>
PodEnds(i) == pods[i].st \in {"pending", "running"} /\ fails < MaxFail /\ fails' = fails + 1 /\ pods' = [pods EXCEPT ![i].st = "done"]
              /\ UNCHANGED <<want, wview, creates, deletes, todo, err, scales>>
PodVanishes(i) == pods[i].st # "gone" /\ fails < MaxFail /\ fails' = fails + 1 /\ pods' = [pods EXCEPT ![i].st = "gone"]
                  /\ UNCHANGED <<want, wview, creates, deletes, todo, err, scales>>
PodLeaves(i) == pods[i].st # "gone" /\ pods[i].dying /\ pods' = [pods EXCEPT ![i].st = "gone"]
                /\ UNCHANGED <<want, wview, creates, deletes, todo, err, scales, fails>>
See(i) ==
  /\ pods[i].seen # pods[i].st
  /\ IF pods[i].seen = "none" /\ pods[i].st = "gone"
     THEN creates' = creates - 1 /\ deletes' = SawGone(i)   \* both events of the watch, one after the other
     ELSE /\ creates' = IF pods[i].seen = "none" THEN creates - 1 ELSE creates
          /\ deletes' = IF pods[i].st = "gone" THEN SawGone(i) ELSE deletes
  /\ pods' = [pods EXCEPT ![i].seen = pods[i].st]
  /\ UNCHANGED <<want, wview, todo, err, scales, fails>>
Next == Decide \/ Create \/ CreateFails \/ Delete \/ Finish \/ Scale \/ SeeScale \/ \E i \in Ids : PodRuns(i) \/ PodEnds(i) \/ PodVanishes(i) \/ PodLeaves(i) \/ See(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Decide) /\ WF_vars(Create) /\ WF_vars(Delete) /\ WF_vars(Finish) /\ WF_vars(SeeScale)
        /\ \A i \in 1..MaxPods : WF_vars(i \in Ids /\ See(i)) /\ WF_vars(i \in Ids /\ PodLeaves(i))
(* every creation is lawful *)
Known == Cardinality({i \in Ids : pods[i].seen \in Unfinished \cup {"none"}})
LawfulCreate == [][Len(pods') > Len(pods) => MayCreate(Known, 0, todo.goal)]_vars
(* pods asked to end are not counted again when more are asked to *)
Left == Cardinality({i \in Ids : pods[i].seen \in {"pending", "running"} /\ ~pods[i].dying})
Excess == IF Left > wview THEN Left - wview ELSE 0
LawfulDecide == [][todo.mode = "idle" /\ todo'.mode = "busy" =>
                     /\ \A i \in todo'.dels : pods[i].seen \in {"pending", "done"}
                     /\ Cardinality({i \in todo'.dels : pods[i].seen = "pending"}) <= Excess]_vars
(* with room for enough pods, things settle *)
Calm == Settled(Cardinality({i \in Ids : pods[i].st \in {"pending", "running"}}), Cardinality({i \in Ids : pods[i].st = "pending"}),
                Cardinality({i \in Ids : pods[i].st = "done"}), want)
Settles == <>[](Len(pods) = MaxPods \/ Calm)
=============================================================================
