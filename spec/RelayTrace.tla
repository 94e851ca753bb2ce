----------------------------- MODULE RelayTrace -----------------------------
(* Connections to the real TCP port of the proxy.
     put(k,v) del(k)              SNI routes (settled before the next event)
     open(c, kind, pre, name)     kind: "tls" | "plain" | "partial"; the server name is pre \o name,
                                  pre = "daskgateway-" if it starts so, else ""
     dest(c, v)                   where it went: a backend, "web" or "closed"
     send(c,d,n) recv(c,d,n,ok)   cumulative byte counts; ok: equal to what was sent so far
     shut(c,d)                    the sender of direction d stopped sending
     close(c,side)                that endpoint closed altogether
     eof(c,d)  settle(c)                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, routes, cs
Tr == Traces[t].events
Shared == Traces[t].shared
ev == Tr[l]
Is(e) == ev.e = e
Dirs == {"cb", "bc"}
Other(d) == IF d = "cb" THEN "bc" ELSE "cb"
From(d) == IF d = "cb" THEN "client" ELSE "backend"
To(d) == From(Other(d))
Fresh == [want |-> {}, dest |-> "?", sent |-> [d \in Dirs |-> 0], got |-> [d \in Dirs |-> 0],
          shut |-> [d \in Dirs |-> FALSE], eof |-> [d \in Dirs |-> FALSE], closed |-> {}]
Prefix == "daskgateway-"
Want(e) == IF e.kind = "tls" /\ e.pre = Prefix /\ e.name \in DOMAIN routes THEN {routes[e.name]}
           ELSE IF e.kind = "partial" THEN IF Shared THEN {"web", "closed"} ELSE {"closed"}
           \* a gateway name that is not routed is not relayed
           ELSE IF e.kind = "tls" /\ e.pre = Prefix THEN IF Shared THEN {"web", "closed"} ELSE {"closed"}
           ELSE IF Shared THEN {"web"} ELSE {"closed"}
Init == t \in 1..Len(Traces) /\ l = 1 /\ routes = [x \in {} |-> ""] /\ cs = [x \in {} |-> Fresh]
C == cs[ev.c]
NewC == CASE Is("open") -> [Fresh EXCEPT !.want = Want(ev)]
          [] Is("dest") -> [C EXCEPT !.dest = ev.v]
          [] Is("send") -> [C EXCEPT !.sent[ev.d] = ev.n]
          [] Is("recv") -> [C EXCEPT !.got[ev.d] = ev.n]
          [] Is("shut") -> [C EXCEPT !.shut[ev.d] = TRUE]
          [] Is("eof") -> [C EXCEPT !.eof[ev.d] = TRUE]
          [] Is("close") -> [C EXCEPT !.closed = @ \cup {ev.side},
                                      !.shut = [d \in Dirs |-> IF From(d) = ev.side THEN TRUE ELSE @[d]]]
          [] OTHER -> C
Conn == {"open", "dest", "send", "recv", "shut", "eof", "close"}
Step == /\ cs' = IF ev.e \in Conn THEN (ev.c :> NewC) @@ cs ELSE cs
        /\ routes' = CASE Is("put") -> (ev.k :> ev.v) @@ routes
                       [] Is("del") -> [x \in DOMAIN routes \ {ev.k} |-> routes[x]]
                       [] OTHER -> routes
        /\ l' = l + 1 /\ t' = t
Why == CASE Is("dest") ->
              {c \in {"connection relayed to a scheduler it does not name"} :
                   ev.v \notin C.want \cup {"web", "closed"}}
              \cup {c \in {"connection not relayed to the scheduler it names"} :
                   ev.v \in {"web", "closed"} /\ C.want \cap {"web", "closed"} = {}}
              \cup {c \in {"other connection not handed to the web endpoint, or not closed"} :
                   ev.v \in {"web", "closed"} /\ C.want \cap {"web", "closed"} # {} /\ ev.v \notin C.want}
         [] Is("recv") -> {c \in {"bytes altered, reordered or invented"} : ~ev.ok \/ ev.n > C.sent[ev.d]}
         [] Is("eof") ->
              {c \in {"connection ended although its sender had not stopped"} :
                   ~C.shut[ev.d] /\ C.closed = {}}
              \cup {c \in {"bytes in flight lost at the end of the stream"} :
                   C.shut[ev.d] /\ From(ev.d) \notin C.closed /\ To(ev.d) \notin C.closed /\ C.got[ev.d] # C.sent[ev.d]}
         [] Is("settle") ->
              {c \in {"bytes not delivered"} :
                   \E d \in Dirs : To(d) \notin C.closed /\ C.got[d] # C.sent[d]}
              \cup {c \in {"end of stream not propagated"} :
                   \E d \in Dirs : To(d) \notin C.closed /\ C.shut[d] /\ ~C.eof[d]}
         [] Is("dead") -> {"the proxy process ended by itself"}
         [] OTHER -> {}
Say(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why])) /\ l' = 0 /\ UNCHANGED <<t, routes, cs>>
Next == l > 0 /\ IF l > Len(Tr) THEN Say(TRUE, <<>>) ELSE IF Why # {} THEN Say(FALSE, SetToSeq(Why)) ELSE Step
Spec == Init /\ [][Next]_<<t, l, routes, cs>>
=============================================================================
