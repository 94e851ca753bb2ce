--------------------------- MODULE WorkQueueTrace ---------------------------
(* Executions recorded from the real queue are behaviours of WorkQueue.
   A trace is a sequence of events; `now` is the clock in units of 1/8 s:
     put(i) done(i) put_after(i,d) put_backoff(i) reset(i) close
     get(c)          consumer c starts asking
     got(c,i)        it was handed i
     closed(c)       it was told the queue is closed
     cancelled(c)    its request was cancelled before it got anything
     settle(failures)  nothing in the implementation can run without the clock moving
     tick(now)       the clock moved to now (due timers run before the next settle)
*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
TItems == {"a", "b", "c", "d", "e"}
TConsumers == {"c1", "c2", "c3", "c4"}

VARIABLES ready, dirty, proc, timer, fails, closed, cons, waitq, now, t, l, base, cap

WQ == INSTANCE WorkQueue WITH Items <- TItems, Consumers <- TConsumers, MaxNow <- 0, Delays <- {},
                              BaseDelay <- 1, MaxDelay <- 1, MaxFails <- 0
core == <<ready, dirty, proc, timer, fails, closed, cons, now>>
Tr == Traces[t].events
ev == Tr[l]

Init == /\ WQ!Init /\ t \in 1..Len(Traces) /\ l = 1
        /\ base = Traces[t].base /\ cap = Traces[t].cap

Is(n) == ev.e = n
Due == {i \in TItems : timer[i] # WQ!None /\ timer[i] <= now}
Waiting == {c \in TConsumers : cons[c] = "waiting"}

\* silent step: a due delayed put enters the queue (order among equal times is free)
Fire(i) == /\ i \in Due /\ timer' = [timer EXCEPT ![i] = WQ!None] /\ WQ!PutEffect(i)
           /\ UNCHANGED <<fails, closed, cons, now>>

Put == Is("put") /\ WQ!PutEffect(ev.i) /\ UNCHANGED <<timer, fails, closed, cons, now>>
Done == Is("done") /\ WQ!DoneEffect(ev.i) /\ UNCHANGED <<timer, fails, closed, cons, now>>
PutAfter == Is("put_after") /\ WQ!PutAfterEffect(ev.i, ev.d) /\ UNCHANGED <<fails, closed, cons, now>>
PutBackoff == /\ Is("put_backoff") /\ WQ!PutAfterEffect(ev.i, WQ!BackoffDelay(ev.i, base, cap))
              /\ fails' = [fails EXCEPT ![ev.i] = @ + 1] /\ UNCHANGED <<closed, cons, now>>
Reset == Is("reset") /\ fails' = [fails EXCEPT ![ev.i] = 0]
         /\ UNCHANGED <<ready, dirty, proc, timer, closed, cons, now>>
Close == Is("close") /\ closed' = TRUE /\ UNCHANGED <<ready, dirty, proc, timer, fails, cons, now>>
Get == Is("get") /\ cons' = [cons EXCEPT ![ev.c] = "waiting"]
       /\ UNCHANGED <<ready, dirty, proc, timer, fails, closed, now>>
Got == Is("got") /\ cons[ev.c] = "waiting" /\ WQ!TakeEffect(ev.i)
       /\ cons' = [cons EXCEPT ![ev.c] = "idle"] /\ UNCHANGED <<timer, fails, closed, now>>
ToldClosed == Is("closed") /\ cons[ev.c] = "waiting" /\ closed
       /\ cons' = [cons EXCEPT ![ev.c] = "idle"] /\ UNCHANGED <<ready, dirty, proc, timer, fails, closed, now>>
Cancelled == Is("cancelled") /\ cons[ev.c] = "waiting"
       /\ cons' = [cons EXCEPT ![ev.c] = "idle"] /\ UNCHANGED <<ready, dirty, proc, timer, fails, closed, now>>
Settle == /\ Is("settle") /\ Due = {}
          /\ ~closed => ~(ready # <<>> /\ Waiting # {})
          /\ closed => Waiting = {}
          /\ \A i \in TItems : i \in DOMAIN ev.failures => ev.failures[i] = fails[i]
          /\ UNCHANGED core
Tick == /\ Is("tick") /\ Due = {} /\ now' = ev.now
        /\ UNCHANGED <<ready, dirty, proc, timer, fails, closed, cons>>

Event == /\ l <= Len(Tr)
         /\ Put \/ Done \/ PutAfter \/ PutBackoff \/ Reset \/ Close \/ Get \/ Got
            \/ ToldClosed \/ Cancelled \/ Settle \/ Tick
         /\ l' = l + 1
Silent == l <= Len(Tr) /\ (\E i \in TItems : Fire(i)) /\ UNCHANGED l

\* total verdicts: accepted when consumed; otherwise name the event and the clause
Step == Event \/ Silent
Clause == CASE Is("got") /\ closed -> "C01: item handed out after close"
            [] Is("got") /\ ev.i \in proc -> "C01: item handed to a second consumer while being processed"
            [] Is("got") /\ ev.i \notin dirty -> "C01: item delivered that was not put (duplicate or early delivery)"
            [] Is("got") -> "C01: item overtook one that became ready before it"
            [] Is("closed") -> "C01: consumer told closed while open"
            [] Is("settle") /\ Due # {} -> "C02: a due delayed put did not happen"
            [] Is("settle") /\ closed /\ Waiting # {} -> "C01: consumer still waiting after close"
            [] Is("settle") /\ ready # <<>> /\ Waiting # {} /\ ~closed -> "C01: consumer sleeps while an item is available"
            [] Is("settle") -> "C02: backoff failure count differs"
            [] OTHER -> "event not allowed"
Verdict == /\ PrintT("@@" \o ToJson([t |-> t, ok |-> FALSE, at |-> l, why |-> <<Clause>>]))
           /\ l' = 0 /\ UNCHANGED core
Accept == /\ PrintT("@@" \o ToJson([t |-> t, ok |-> TRUE, at |-> l, why |-> <<>>]))
          /\ l' = 0 /\ UNCHANGED core
Next == /\ l > 0
        /\ IF l > Len(Tr) THEN Accept
           ELSE IF ENABLED Step THEN Step ELSE Verdict
        /\ UNCHANGED <<t, waitq, base, cap>>
Safe == l > 0 => WQ!Exclusive /\ WQ!NothingLost
Spec == Init /\ [][Next]_<<core, t, l, waitq, base, cap>>
=============================================================================
