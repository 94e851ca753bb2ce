------------------------- MODULE ProxyFollowerTrace -------------------------
(* What the real proxy process serves while the gateway's table changes and faults happen.
     put(k,v) del(k)  restart        the gateway's table (restart: emptied)
     probe(k,v)                      a request for k was answered by target v ("-": no route)
     settle(served)                  no more faults, time has passed: everything served    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, table, seen
Tr == Traces[t].events
Keys == ToSet(Traces[t].keys)
ev == Tr[l]
Is(e) == ev.e = e
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ table = [k \in Keys |-> "-"] /\ seen = [k \in Keys |-> {"-"}]
Table2 == CASE Is("put") -> [table EXCEPT ![ev.k] = ev.v]
            [] Is("del") -> [table EXCEPT ![ev.k] = "-"]
            [] Is("restart") -> [k \in Keys |-> "-"]
            [] OTHER -> table
Step == /\ table' = Table2
        /\ seen' = IF Is("settle") THEN [k \in Keys |-> {table[k]}]
                   ELSE [k \in Keys |-> seen[k] \cup {Table2[k]}]
        /\ l' = l + 1 /\ t' = t
Why == CASE Is("settle") ->
              {"served table differs from the gateway's" : x \in {y \in ToSet(ev.served) : table[y[1]] # y[2]}}
         [] Is("probe") ->
              {c \in {"a route that did not change was not served, or a target that is not (and was not recently) the route's was"} :
                 ev.v \notin seen[ev.k]}
         [] Is("dead") -> {"the proxy process ended by itself"}
         [] OTHER -> {}
Say(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why])) /\ l' = 0 /\ UNCHANGED <<t, table, seen>>
Next == l > 0 /\ IF l > Len(Tr) THEN Say(TRUE, <<>>) ELSE IF Why # {} THEN Say(FALSE, SetToSeq(Why)) ELSE Step
Spec == Init /\ [][Next]_<<t, l, table, seen>>
=============================================================================
