---------------------------- MODULE InformerTrace ----------------------------
(* A real informer on a fake API server.  A trace is a sequence of events:
     change n v del          at the server
     update n v old cached   told to the consumer (old: the version told before, as it says;
                             cached: the version the cache has at that moment)
     delete n v cached
     calm cache              the connection has been healthy for long; cache: name -> version
     start cache             the informer says it is ready *)
EXTENDS Informer, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, hist, told, mark
vars == <<t, l, hist, told, mark>>
Tr == Traces[t]
ev == Tr[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ hist = <<>> /\ told = <<>> /\ mark = <<>>
Q(b, what) == IF b THEN {} ELSE {what}
Server == [n \in DOMAIN hist |-> IF hist[n][Len(hist[n])].del THEN 0 ELSE hist[n][Len(hist[n])].v]
Why ==
  CASE ev.e = "change" -> {}
    [] ev.e = "update" ->
         Q(Existed(hist, ev.n, ev.v), "the consumer was told of an object that never existed like that")
         \cup Q(ev.v >= Get(mark, ev.n), "the copy went back to an older state")
         \cup Q(ev.old = Get(told, ev.n), "the consumer was given another previous state than it was told")
         \cup Q(ev.cached = ev.v, "the copy is not what the consumer is told")
    [] ev.e = "delete" ->
         Q(MayTellDelete(told, hist, ev.n), "the consumer was told of a removal that did not happen")
         \cup Q(ev.cached = 0, "the copy is not what the consumer is told")
    [] ev.e = "calm" -> Q(Same(ev.cache, Server), "the copy does not equal the server")
                        \cup Q(Same(told, Server), "the consumer was not told of every change")
    [] ev.e = "start" -> Q(Same(ev.cache, told), "the copy is not what the consumer was told")
    [] OTHER -> {}
Verdict(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why]))
Apply ==
  CASE ev.e = "change" -> /\ hist' = [n \in DOMAIN hist \cup {ev.n} |->
                                        (IF n \in DOMAIN hist THEN hist[n] ELSE <<>>) \o (IF n = ev.n THEN <<[v |-> ev.v, del |-> ev.del]>> ELSE <<>>)]
                          /\ UNCHANGED <<told, mark>>
    [] ev.e = "update" -> told' = Put(told, ev.n, ev.v) /\ mark' = Put(mark, ev.n, ev.v) /\ UNCHANGED hist
    [] ev.e = "delete" -> /\ told' = Put(told, ev.n, 0) /\ UNCHANGED hist
                          /\ mark' = Put(mark, ev.n, LET later == {hist[ev.n][i].v : i \in {j \in 1..Len(hist[ev.n]) : hist[ev.n][j].del /\ hist[ev.n][j].v > told[ev.n]}}
                                                     IN CHOOSE v \in later : \A w \in later : v <= w)
    [] OTHER -> UNCHANGED <<hist, told, mark>>
Step == /\ l \in 1..Len(Tr) /\ UNCHANGED t
        /\ IF Why = {} THEN l' = l + 1 /\ Apply ELSE Verdict(FALSE, Why) /\ l' = 0 /\ UNCHANGED <<hist, told, mark>>
Accept == l = Len(Tr) + 1 /\ Verdict(TRUE, {}) /\ l' = 0 /\ UNCHANGED <<t, hist, told, mark>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
