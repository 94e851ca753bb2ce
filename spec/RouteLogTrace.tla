--------------------------- MODULE RouteLogTrace ---------------------------
(* Executions recorded from the real Proxy object are behaviours of RouteLog.
     put(k,v) / del(k)        route change; id = the id a snapshot carries right after it
     start(k,v,id)            a gateway process started; its table holds the gateway route
     list(f,status,routes,id) watch(f,id,src,status)   src: incarnation that gave the id, -1 arbitrary
     recv(f,events)  drop(f)  end(f)  close  settle(paused)  denied(status,leak)          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, inc, log, ids, fol, closed
vars == <<t, l, inc, log, ids, fol, closed>>
Tr == Traces[t].events
ev == Tr[l]
Keep == Traces[t].max \div 2

\* tables are functions from route keys to targets
Apply(tbl, c) == IF c[2] = "-" THEN [x \in DOMAIN tbl \ {c[1]} |-> tbl[x]] ELSE (c[1] :> c[2]) @@ tbl
None0 == [x \in {} |-> ""]
TableAt(p) == FoldLeft(Apply, None0, SubSeq(log, 1, p))
Table == TableAt(Len(log))
Fols == {"f", "g", "h"}
Idle == [mode |-> "idle", at |-> -1, tbl |-> None0, src |-> -1, last |-> -1]
\* ids[p+1] is the id of position p of this incarnation
PosOf(id) == IF \E p \in 0..Len(log) : ids[p + 1] = id THEN CHOOSE p \in 0..Len(log) : ids[p + 1] = id ELSE -1

Init == t \in 1..Len(Traces) /\ l = 1 /\ inc = -1 /\ log = <<>> /\ ids = <<>> /\ closed = FALSE
        /\ fol = [f \in Fols |-> Idle]
Is(e) == ev.e = e
Pairs(tbl) == {<<k, tbl[k]>> : k \in DOMAIN tbl}

Start == /\ inc' = inc + 1 /\ log' = <<<<ev.k, ev.v>>>> /\ ids' = <<-1, ev.id>> /\ closed' = FALSE
         /\ fol' = [f \in Fols |-> Idle]
Change == /\ log' = IF Is("del") /\ ev.k \notin DOMAIN Table THEN log
                    ELSE Append(log, <<ev.k, IF Is("put") THEN ev.v ELSE "-">>)
          /\ ids' = IF Len(log') = Len(log) THEN ids ELSE Append(ids, ev.id)
          /\ UNCHANGED <<inc, fol, closed>>
List == UNCHANGED <<inc, log, ids, fol, closed>>
\* an id nobody was given may stand for the beginning (then everything has to follow)
WPos == IF ev.src = inc \/ (ev.src = -1 /\ PosOf(ev.id) >= 0) THEN PosOf(ev.id)
        ELSE IF ev.src = -1 /\ ev.status = 200 THEN 0 ELSE -1
\* the table the follower has at the position it resumes from
Watch == /\ fol' = [fol EXCEPT ![ev.f] = IF ev.status = 200
                       THEN [mode |-> "on", at |-> WPos, tbl |-> TableAt(WPos), src |-> inc, last |-> ev.id]
                       ELSE Idle]
         /\ UNCHANGED <<inc, log, ids, closed>>
Recv == /\ fol' = [fol EXCEPT ![ev.f].at = @ + Len(ev.events), ![ev.f].tbl = FoldLeft(Apply, @,
                      [i \in DOMAIN ev.events |-> <<ev.events[i].k, ev.events[i].v>>])]
        /\ UNCHANGED <<inc, log, ids, closed>>
Drop == fol' = [fol EXCEPT ![ev.f] = Idle] /\ UNCHANGED <<inc, log, ids, closed>>
Close == closed' = TRUE /\ UNCHANGED <<inc, log, ids, fol>>
Other == UNCHANGED <<inc, log, ids, fol, closed>>

EventsOk(f, es) == /\ fol[f].at + Len(es) <= Len(log)
                   /\ \A i \in DOMAIN es : /\ <<es[i].k, es[i].v>> = log[fol[f].at + i]
                                           /\ es[i].id = ids[fol[f].at + i + 1]
Why ==
  CASE Is("put") \/ Is("del") ->
         {c \in {"ids repeat or go back"} : Is("put") /\ ev.id <= ids[Len(ids)]}
         \cup {c \in {"an ineffective removal changed the log"} :
                 Is("del") /\ ev.k \notin DOMAIN Table /\ ev.id # ids[Len(ids)]}
    [] Is("list") ->
         {c \in {"list refused to the token holder"} : ev.status # 200}
         \cup {c \in {"listed table differs from the route table"} :
                 ev.status = 200 /\ (Len(ev.routes) # Cardinality(DOMAIN Table) \/ ToSet(ev.routes) # Pairs(Table))}
         \cup {c \in {"listed id is not the id of the listed table"} :
                 ev.status = 200 /\ ev.id # ids[Len(ids)]}
    [] Is("watch") ->
         {c \in {"follower at a stale or unknown position accepted"} : ev.status = 200 /\ WPos < 0}
         \cup {c \in {"follower at a retained position refused"} :
                 ev.status # 200 /\ WPos >= 1 /\ Len(log) - WPos <= Keep}
         \cup {c \in {"stale follower not told to refresh"} :
                 ev.status \notin {200, 410} /\ ~ev.malformed}
         \cup {c \in {"malformed position not refused"} : ev.malformed /\ ev.status \notin 400..499}
    [] Is("recv") ->
         {c \in {"events missing, duplicated, reordered or altered"} :
            fol[ev.f].mode # "on" \/ ~EventsOk(ev.f, ev.events)}
    [] Is("end") -> {c \in {"stream ended while the gateway serves"} : ~closed}
    [] Is("settle") ->
         {c \in {"streaming follower does not have the current table"} :
            ~closed /\ \E f \in Fols : fol[f].mode = "on" /\ f \notin ToSet(ev.paused)
                              /\ (fol[f].at # Len(log) \/ fol[f].tbl # Table)}
         \cup {c \in {"stream left open at shutdown"} :
            closed /\ \E f \in Fols : fol[f].mode = "on" /\ f \notin ToSet(ev.paused)}
    [] Is("denied") ->
         {c \in {"caller without the token not refused"} : ev.status \notin {401, 403} \/ ev.leak}
    [] OTHER -> {}

Step == CASE Is("start") -> Start [] Is("put") \/ Is("del") -> Change [] Is("list") -> List
          [] Is("watch") -> Watch [] Is("recv") -> Recv [] Is("drop") \/ Is("end") -> Drop
          [] Is("close") -> Close [] OTHER -> Other
Say(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why])) /\ l' = 0
                /\ UNCHANGED <<t, inc, log, ids, fol, closed>>
Next == /\ l > 0
        /\ IF l > Len(Tr) THEN Say(TRUE, <<>>)
           ELSE IF Why # {} THEN Say(FALSE, SetToSeq(Why))
           ELSE Step /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Faithful == l > 0 => \A f \in Fols : fol[f].mode = "on" => fol[f].tbl = TableAt(fol[f].at)
=============================================================================
