------------------------------ MODULE ForwardMC ------------------------------
EXTENDS Forward
CONSTANTS Reqs, Clusters, Max
VARIABLES req, fate, delivered, stopped
vars == <<req, fate, delivered, stopped>>
Init == req = <<>> /\ fate = [k \in Clusters |-> "up"] /\ delivered = [i \in Reqs |-> 0] /\ stopped = {}
Ask(i, k) == i \notin DOMAIN req /\ req' = (i :> NewReq(k, fate[k] = "up")) @@ req /\ UNCHANGED <<fate, delivered, stopped>>
Attempt(i) == MaySend(req[i], Max) /\ req' = [req EXCEPT ![i] = Send(@)] /\ UNCHANGED <<fate, delivered, stopped>>
Replied(i, ok) == /\ req[i].fly
                  /\ req' = [req EXCEPT ![i] = Reply(@, ok)]
                  /\ delivered' = IF ok THEN [delivered EXCEPT ![i] = @ + 1] ELSE delivered
                  /\ fate' = IF Exhausted(req'[i], Max) THEN [fate EXCEPT ![req[i].k] = Fail(@)] ELSE fate
                  /\ UNCHANGED stopped
Answer(i) == MayAnswer(req[i], Max) /\ req' = [req EXCEPT ![i].open = FALSE] /\ UNCHANGED <<fate, delivered, stopped>>
Stop(k) == fate[k] = "up" /\ fate' = [fate EXCEPT ![k] = "stopped"] /\ stopped' = stopped \cup {k} /\ UNCHANGED <<req, delivered>>
Next == \/ \E i \in Reqs, k \in Clusters : Ask(i, k)
        \/ \E i \in DOMAIN req : Attempt(i) \/ Replied(i, TRUE) \/ Replied(i, FALSE) \/ Answer(i)
        \/ \E k \in Clusters : Stop(k)
Spec == Init /\ [][Next]_vars /\ \A i \in Reqs : WF_vars(i \in DOMAIN req /\ (Attempt(i) \/ Answer(i) \/ \E ok \in BOOLEAN : Replied(i, ok)))
Once == \A i \in Reqs : delivered[i] <= 1
Bounded == \A i \in DOMAIN req : req[i].tries <= Tries(Max) /\ (~req[i].live => req[i].tries = 0)
FailedOnlyIf == \A k \in Clusters : fate[k] = "failed" => \E i \in DOMAIN req : req[i].k = k /\ Exhausted(req[i], Max)
Honest == \A i \in DOMAIN req : ~req[i].open => (Succeeds(req[i]) <=> delivered[i] = 1)
                                 /\ (req[i].live /\ ~Succeeds(req[i]) => fate[req[i].k] # "up")
Final == [][\A k \in Clusters : fate[k] # "up" => fate'[k] = fate[k]]_vars
Answered == \A i \in Reqs : (i \in DOMAIN req) ~> (i \in DOMAIN req /\ ~req[i].open)
=============================================================================
