----------------------------- MODULE WorkQueue -----------------------------
(* The reconciliation work queue (workqueue.py): producers, consumers, cancellation,
   delayed puts with rescheduling, and exponential backoff.

   The queue's own state:
     ready    sequence of items that may be handed out now, in the order they became ready
     dirty    items put and not yet handed out (ready, or waiting for their current
              processing to finish)
     proc     items handed out and not yet marked done
     timer    item -> virtual time of its scheduled delayed put (None if not scheduled)
     fails    item -> number of consecutive failures (backoff exponent)
     closed   the queue was closed
   Consumers:
     cons     consumer -> "idle" | "waiting" | "woken"
   Environment:
     now      the clock                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Items, Consumers, MaxNow, Delays, BaseDelay, MaxDelay, MaxFails

None == -1
VARIABLES ready, dirty, proc, timer, fails, closed, cons, waitq, now
qvars == <<ready, dirty, proc, timer, fails, closed>>
vars == <<ready, dirty, proc, timer, fails, closed, cons, waitq, now>>

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE IF n > 20 THEN 1048576 ELSE 2 * Pow2(n - 1)
BackoffDelay(i, base, cap) == Min(base * Pow2(fails[i]), cap)
Backoff(i) == BackoffDelay(i, BaseDelay, MaxDelay)
Range(s) == {s[k] : k \in 1..Len(s)}

TypeOK == /\ dirty \subseteq Items /\ proc \subseteq Items
          /\ closed \in BOOLEAN /\ Range(ready) \subseteq Items

QInit == /\ ready = <<>> /\ dirty = {} /\ proc = {} /\ closed = FALSE
         /\ timer = [i \in Items |-> None] /\ fails = [i \in Items |-> 0]
Init == QInit /\ cons = [c \in Consumers |-> "idle"] /\ waitq = <<>> /\ now = 0

------------------------------------------------------------------------------
(* Core effects, shared by the design and by the trace specification. *)
ReadyAfterPut(i) == IF i \in dirty \/ i \in proc THEN ready ELSE Append(ready, i)
PutEffect(i) == /\ dirty' = dirty \cup {i}
                /\ ready' = ReadyAfterPut(i)
                /\ proc' = proc
\* handing out an item: only the one that became ready first, never one in processing
TakeEffect(i) == /\ ~closed
                 /\ ready # <<>> /\ i = Head(ready) /\ i \notin proc
                 /\ ready' = Tail(ready)
                 /\ dirty' = dirty \ {i}
                 /\ proc' = proc \cup {i}
DoneEffect(i) == /\ proc' = proc \ {i}
                 /\ ready' = IF i \in dirty THEN Append(ready, i) ELSE ready
                 /\ dirty' = dirty
\* put_after: earliest request wins; a non-positive delay is an immediate put
PutAfterEffect(i, d) ==
    LET when == now + d IN
    IF timer[i] = None \/ timer[i] > when
    THEN IF d > 0
         THEN timer' = [timer EXCEPT ![i] = when] /\ UNCHANGED <<ready, dirty, proc>>
         ELSE timer' = [timer EXCEPT ![i] = None] /\ PutEffect(i)
    ELSE UNCHANGED <<timer, ready, dirty, proc>>

------------------------------------------------------------------------------
(* The design: consumers are futures in a FIFO of waiters; a put wakes one of them. *)
RECURSIVE WakeFirst(_, _)
WakeFirst(q, cs) == IF q = <<>> THEN cs ELSE [cs EXCEPT ![Head(q)] = "woken"]
WakeNext == /\ cons' = WakeFirst(waitq, cons)
            /\ waitq' = IF waitq = <<>> THEN waitq ELSE Tail(waitq)

Put(i) == PutEffect(i) /\ WakeNext /\ UNCHANGED <<timer, fails, closed, now>>

\* a consumer asks: takes at once, is refused, or waits
GetStart(c) ==
    /\ cons[c] = "idle"
    /\ \/ /\ ready # <<>> /\ TakeEffect(Head(ready)) /\ UNCHANGED <<cons, waitq>>
       \/ /\ closed /\ UNCHANGED <<ready, dirty, proc, cons, waitq>>
       \/ /\ ready = <<>> /\ ~closed
          /\ cons' = [cons EXCEPT ![c] = "waiting"] /\ waitq' = Append(waitq, c)
          /\ UNCHANGED <<ready, dirty, proc>>
    /\ UNCHANGED <<timer, fails, closed, now>>
\* a woken consumer runs: it may find that somebody else was faster
Resume(c) ==
    /\ cons[c] = "woken"
    /\ \/ /\ ready # <<>> /\ TakeEffect(Head(ready)) /\ cons' = [cons EXCEPT ![c] = "idle"] /\ UNCHANGED waitq
       \/ /\ closed /\ cons' = [cons EXCEPT ![c] = "idle"] /\ UNCHANGED <<ready, dirty, proc, waitq>>
       \/ /\ ready = <<>> /\ ~closed
          /\ cons' = [cons EXCEPT ![c] = "waiting"] /\ waitq' = Append(waitq, c)
          /\ UNCHANGED <<ready, dirty, proc>>
    /\ UNCHANGED <<timer, fails, closed, now>>
\* cancelling a waiting consumer; one that had already been woken passes the wakeup on
Without(q, c) == SelectSeq(q, LAMBDA x : x # c)
Cancel(c) ==
    /\ cons[c] \in {"waiting", "woken"}
    /\ IF cons[c] = "woken" /\ ready # <<>> /\ waitq # <<>>
       THEN /\ cons' = [WakeFirst(waitq, cons) EXCEPT ![c] = "idle"]
            /\ waitq' = Tail(waitq)
       ELSE /\ cons' = [cons EXCEPT ![c] = "idle"]
            /\ waitq' = Without(waitq, c)
    /\ UNCHANGED <<ready, dirty, proc, timer, fails, closed, now>>
Done(i) == /\ i \in proc /\ DoneEffect(i)
           /\ IF i \in dirty THEN WakeNext ELSE UNCHANGED <<cons, waitq>>
           /\ UNCHANGED <<timer, fails, closed, now>>
PutAfter(i, d) == /\ PutAfterEffect(i, d)
                  /\ IF ready' # ready THEN WakeNext ELSE UNCHANGED <<cons, waitq>>
                  /\ UNCHANGED <<fails, closed, now>>
PutBackoff(i) == /\ fails[i] < MaxFails
                 /\ PutAfterEffect(i, Backoff(i))
                 /\ fails' = [fails EXCEPT ![i] = @ + 1]
                 /\ IF ready' # ready THEN WakeNext ELSE UNCHANGED <<cons, waitq>>
                 /\ UNCHANGED <<closed, now>>
ResetBackoff(i) == /\ fails' = [fails EXCEPT ![i] = 0]
                   /\ UNCHANGED <<ready, dirty, proc, timer, closed, cons, waitq, now>>
Fire(i) == /\ timer[i] # None /\ timer[i] <= now
           /\ timer' = [timer EXCEPT ![i] = None]
           /\ PutEffect(i) /\ WakeNext /\ UNCHANGED <<fails, closed, now>>
\* time passes only once everything due has run
Tick == /\ now < MaxNow /\ now' = now + 1
        /\ \A i \in Items : timer[i] = None \/ timer[i] > now
        /\ \A c \in Consumers : cons[c] # "woken"
        /\ UNCHANGED <<ready, dirty, proc, timer, fails, closed, cons, waitq>>
Close == /\ ~closed /\ closed' = TRUE
         /\ cons' = [c \in Consumers |-> IF cons[c] = "waiting" THEN "woken" ELSE cons[c]]
         /\ waitq' = <<>>
         /\ UNCHANGED <<ready, dirty, proc, timer, fails, now>>

Internal == (\E c \in Consumers : Resume(c)) \/ (\E i \in Items : Fire(i))
Next == \/ \E i \in Items : Put(i) \/ Done(i) \/ PutBackoff(i) \/ ResetBackoff(i)
        \/ \E i \in Items, d \in Delays : PutAfter(i, d)
        \/ \E c \in Consumers : GetStart(c) \/ Cancel(c)
        \/ Internal \/ Tick \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal)

------------------------------------------------------------------------------
NoDup(s) == \A a, b \in 1..Len(s) : a # b => s[a] # s[b]
\* C01: an item in processing is never available to a second consumer
Exclusive == NoDup(ready) /\ Range(ready) \cap proc = {}
\* C01: nothing that was put is forgotten
NothingLost == /\ Range(ready) = dirty \ proc
\* C01: no consumer sleeps while work is available (no lost wakeup)
NoLostWakeup == (ready # <<>> /\ \E c \in Consumers : cons[c] = "waiting")
                   => \E c \in Consumers : cons[c] = "woken"
ClosedWakesAll == closed => \A c \in Consumers : cons[c] # "waiting"
\* C02
TimersInFuture == \A i \in Items : timer[i] = None \/ timer[i] >= now
EarliestWins == [][\A i \in Items : (timer[i] # None /\ timer'[i] # None) => timer'[i] <= timer[i]]_vars
Inv == TypeOK /\ Exclusive /\ NothingLost /\ NoLostWakeup /\ ClosedWakesAll /\ TimersInFuture
\* a woken or due thing always runs
WokenRuns == \A c \in Consumers : (cons[c] = "woken") ~> (cons[c] # "woken" \/ closed)
=============================================================================
