---------------------------- MODULE RouterTrace ----------------------------
(* What the real router (and the real proxy's HTTP port) answers is what Router defines.
   Paths are sequences of tokens: "/" , "%2F" (an escaped slash) and anything else.
     put(p,v) del(p)                       route changes
     match(p,v,rest,has)                   router package: target and what is left of the path
     dump(routes)                          router package: all routes (as segments)
     http(p,q,body,method, st, v, up, uq, ubody, umethod, host)   request through the proxy  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

R == INSTANCE Router WITH Segs <- {}, MaxLen <- 0, Targets <- {}, routes <- <<>>, trie <- <<>>
None == "-"
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, routes
Tr == Traces[t].events
Targets == Traces[t].targets
ev == Tr[l]
Is(e) == ev.e = e

Dec(p) == [i \in DOMAIN p |-> IF p[i] = "%2F" THEN "/" ELSE p[i]]
\* one leading and one trailing slash do not count
Lead(p) == IF Len(p) > 1 /\ p[1] = "/" THEN 1 ELSE 0
Norm(p) == IF p = <<>> \/ p = <<"/">> THEN <<>>
           ELSE LET a == SubSeq(p, Lead(p) + 1, Len(p))
                IN IF a # <<>> /\ a[Len(a)] = "/" THEN SubSeq(a, 1, Len(a) - 1) ELSE a
RECURSIVE Split(_, _)
Split(p, cur) == IF p = <<>> THEN <<cur>>
                 ELSE IF p[1] = "/" THEN <<cur>> \o Split(Tail(p), "") ELSE Split(Tail(p), cur \o p[1])
SegsOf(p) == LET n == Norm(Dec(p)) IN IF n = <<>> THEN <<>> ELSE Split(n, "")
\* number of tokens of (decoded) p taken by the first n segments and the slash behind them
RECURSIVE Skip(_, _, _)
Skip(p, i, n) == IF n = 0 THEN i
                 ELSE IF i >= Len(p) THEN i
                 ELSE IF p[i + 1] = "/" THEN Skip(p, i + 1, n - 1) ELSE Skip(p, i + 1, n)
BestLen(p) == LET s == SegsOf(p)
                  C == {n \in 0..Len(s) : SubSeq(s, 1, n) \in DOMAIN routes}
              IN IF C = {} THEN -1 ELSE CHOOSE n \in C : \A m \in C : m <= n
Target(p) == R!Best(routes, SegsOf(p))
Strip(p) == IF p # <<>> /\ p[1] = "/" THEN Tail(p) ELSE p
\* what is left of p behind its best match (a slash in front of it is immaterial)
RestFrom(p) == LET d == Dec(p) IN IF d = <<"/">> THEN 0 ELSE Skip(d, Lead(d), BestLen(p))
Rest(p) == Strip(SubSeq(p, RestFrom(p) + 1, Len(p)))
\* upstream path: the target's path, one slash, the rest
Drop1(p) == IF p # <<>> /\ p[Len(p)] = "/" THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Upstream(p) == Drop1(Targets[Target(p)].path) \o <<"/">> \o Rest(p)
\* an escaped slash inside the part that names the route, or next to it: only the segments count
Escaped(p) == \E i \in 1..RestFrom(p) + 1 : i <= Len(p) /\ p[i] = "%2F"
Words(p) == SelectSeq(Dec(p), LAMBDA x : x # "/")
Query(a, b) == IF a = "" \/ b = "" THEN a \o b ELSE a \o "&" \o b
Same(a, b) == IF Escaped(ev.p) THEN Words(a) = Words(b) ELSE a = b

Why ==
  CASE Is("match") ->
         {c \in {"wrong route"} : ev.v # Target(ev.p)}
         \cup {c \in {"wrong remainder"} : ev.v = Target(ev.p) /\ ev.v # None /\ Strip(ev.rest) # Rest(ev.p)}
         \cup {c \in {"HasMatch disagrees"} : ev.has # (Target(ev.p) # None)}
    [] Is("dump") ->
         {c \in {"set of routes differs"} :
            Len(ev.routes) # Cardinality(DOMAIN routes)
            \/ {<<x[1], x[2]>> : x \in ToSet(ev.routes)} # {<<q, routes[q]>> : q \in DOMAIN routes}}
    [] Is("http") ->
         LET v == Target(ev.p) IN
         IF v = None THEN {c \in {"request without route not answered 404"} : ev.st # 404 \/ ev.v # None}
         ELSE IF Targets[v].dead THEN {c \in {"unreachable target not answered 502"} : ev.st # 502 \/ ev.v # None}
         ELSE {c \in {"wrong target"} : ev.v # Targets[v].host}
              \cup {c \in {"wrong status"} : ev.v = Targets[v].host /\ ev.st # ev.xst}
              \cup {c \in {"wrong upstream path"} : ev.v = Targets[v].host /\ ~Same(ev.up, Upstream(ev.p))}
              \cup {c \in {"wrong upstream query"} : ev.v = Targets[v].host /\ ev.uq # Query(Targets[v].query, ev.q)}
              \cup {c \in {"request or response altered"} : ev.v = Targets[v].host /\ ~ev.same}
    [] Is("panic") -> {"the router panicked"}
    [] OTHER -> {}
Init == t \in 1..Len(Traces) /\ l = 1 /\ routes = [x \in {} |-> None]
Say(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why])) /\ l' = 0 /\ UNCHANGED <<t, routes>>
Step == /\ routes' = CASE Is("put") -> (SegsOf(ev.p) :> ev.v) @@ routes
                       [] Is("del") -> [q \in DOMAIN routes \ {SegsOf(ev.p)} |-> routes[q]]
                       [] OTHER -> routes
        /\ l' = l + 1 /\ t' = t
Next == l > 0 /\ IF l > Len(Tr) THEN Say(TRUE, <<>>) ELSE IF Why # {} THEN Say(FALSE, SetToSeq(Why)) ELSE Step
Spec == Init /\ [][Next]_<<t, l, routes>>
=============================================================================
