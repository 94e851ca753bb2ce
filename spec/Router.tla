------------------------------- MODULE Router -------------------------------
(* HTTP routing: a request goes to the route whose path is the longest whole-segment
   prefix of the request path.  `routes` is the definition (a set of routes); `trie` is
   the data structure of pkg/router: nodes by path, with pruning on removal.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Segs, MaxLen, Targets
None == "-"
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE Seqs(n - 1) \cup {Append(s, x) : s \in Seqs(n - 1), x \in Segs}
Paths == Seqs(MaxLen)
Prefixes(p) == {SubSeq(p, 1, n) : n \in 0..Len(p)}

\* the definition, for any function from segment sequences to targets
Best(R, p) == LET C == {q \in Prefixes(p) : q \in DOMAIN R}
              IN IF C = {} THEN None ELSE R[CHOOSE q \in C : \A r \in C : Len(r) <= Len(q)]

VARIABLES routes, trie     \* trie: node path -> value (None if no route ends there)

Init == routes = [x \in {} |-> None] /\ trie = [x \in {<<>>} |-> None]

Put(p, v) == /\ routes' = (p :> v) @@ routes
             /\ trie' = (p :> v) @@ trie @@ [q \in Prefixes(p) |-> None]
\* walking back from a removed leaf: drop nodes that carry nothing and have no children
RECURSIVE Prune(_, _)
Prune(t, p) == IF p = <<>> \/ t[p] # None \/ \E q \in DOMAIN t : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p
               THEN t ELSE Prune([q \in DOMAIN t \ {p} |-> t[q]], SubSeq(p, 1, Len(p) - 1))
Del(p) == /\ routes' = [q \in DOMAIN routes \ {p} |-> routes[q]]
          /\ trie' = IF p \in DOMAIN trie THEN Prune([trie EXCEPT ![p] = None], p) ELSE trie

Next == \E p \in Paths : Del(p) \/ \E v \in Targets : Put(p, v)
Spec == Init /\ [][Next]_<<routes, trie>>

\* descend while there are nodes, remembering the last value
RECURSIVE Walk(_, _, _)
Walk(p, n, best) == LET q == SubSeq(p, 1, n) IN
    IF q \notin DOMAIN trie THEN best
    ELSE LET b == IF trie[q] # None THEN trie[q] ELSE best IN IF n = Len(p) THEN b ELSE Walk(p, n + 1, b)
Refines == \A p \in Paths : Walk(p, 0, None) = Best(routes, p)
Minimal == \A q \in DOMAIN trie \ {<<>>} : trie[q] # None \/ \E r \in DOMAIN trie : Len(r) > Len(q) /\ SubSeq(r, 1, Len(q)) = q
\* changing one route affects only the paths it governs
Local == [][\A p \in Paths : Best(routes', p) # Best(routes, p) =>
              \E q \in Prefixes(p) : (q \in DOMAIN routes') # (q \in DOMAIN routes)
                                     \/ (q \in DOMAIN routes /\ routes'[q] # routes[q])]_<<routes, trie>>
=============================================================================
