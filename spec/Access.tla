------------------------------- MODULE Access -------------------------------
(* The API gate: credentials, session cookies with a lifetime, cluster tokens.
   A session is created by a request that went through full authentication; presenting its
   cookie within the lifetime stands for the same user.  `login` (a history variable) is
   when each user last presented credentials that were accepted.                         *)
EXTENDS AccessRules, TLC

CONSTANTS Users, Clusters, MaxAge, MaxTime, MaxSess
VARIABLES now, owner, status, sess, login, last
vars == <<now, owner, status, sess, login, last>>

Creds == {<<"none", Nobody>>} \cup ({"good", "bad"} \X Users)
\* what was wrong with the last request (never anything)
None == {}

Init == /\ now = 0 /\ owner = [k \in {} |-> Nobody] /\ status = [k \in {} |-> "-"]
        /\ sess = {} /\ login = [u \in Users |-> -1 - MaxAge] /\ last = None

Valid(s) == s.at + MaxAge >= now

\* session s (or none) and credentials cr identify
Who(s, cr) == IF s # {} /\ Valid(CHOOSE x \in s : TRUE) THEN (CHOOSE x \in s : TRUE).user
              ELSE IF cr[1] = "good" THEN cr[2] ELSE Nobody
Full(s, cr) == cr[1] = "good" /\ ~(s # {} /\ Valid(CHOOSE x \in s : TRUE))

Request(e, k, s, cr, tok) ==
  LET who == Who(s, cr)
      out == Outcome(e, k, who, tok, owner)
      byUser == e \in OfUser \cup (IF tok = k /\ k \in DOMAIN owner THEN {} ELSE OfBoth)
      full == byUser /\ Full(s, cr)
      new == IF e = "create" /\ out = "done" THEN Clusters \ DOMAIN owner ELSE {}
  IN /\ e = "create" => (out = "done" => new # {})
     /\ login' = IF full THEN [login EXCEPT ![cr[2]] = now] ELSE login
     \* the cookie of an existing session of that user may be handed out again
     /\ sess' = IF full /\ ~\E x \in sess : x.user = who THEN sess \cup {[user |-> who, at |-> now]} ELSE sess
     /\ Cardinality(sess') <= MaxSess
     /\ IF new # {}
          THEN LET n == CHOOSE n \in new : TRUE
               IN owner' = (n :> who) @@ owner /\ status' = (n :> "pending") @@ status
          ELSE /\ owner' = owner
               /\ status' = IF e = "delete" /\ out = "done" THEN [status EXCEPT ![k] = "stopping"]
                            ELSE IF e = "heartbeat" /\ out = "done" /\ status[k] = "pending"
                                 THEN [status EXCEPT ![k] = "running"] ELSE status
     /\ last' = LET as == IF byUser THEN who ELSE Nobody
                    touched == MayTouch(e, k, out)
                    saw == IF out = "done" /\ e = "list" THEN {c \in DOMAIN owner : owner[c] = who}
                           ELSE IF out = "done" /\ e = "get" THEN {k} ELSE {}
                IN {b \in {"did more than read health and version without credentials"} :
                      as = Nobody /\ out = "done" /\ e \notin Open /\ ~(tok = k /\ e \in OfBoth \cup OfCluster)}
                   \cup {b \in {"reached another's cluster"} :
                      \E c \in touched \cup saw : c \in DOMAIN owner /\ owner[c] # as /\ ~(tok = c /\ e \in OfBoth \cup OfCluster)}
                   \cup {b \in {"treated as a user without recent proof"} : as # Nobody /\ now - login'[as] > MaxAge}
                   \cup {b \in {"touched a cluster although refused"} :
                      out # "done" /\ (status' # status \/ owner' # owner \/ touched # {})}
     /\ now' = now

Tick == now < MaxTime /\ now' = now + 1 /\ last' = None /\ UNCHANGED <<owner, status, login, sess>>
\* an expired session is dropped when its cookie is seen
Forget == \E s \in sess : ~Valid(s) /\ sess' = sess \ {s} /\ last' = None /\ UNCHANGED <<now, owner, status, login>>

\* "options" and "version" behave as "list" and "health", "adapt" as "scale"
Sess == {{}} \cup {{x} : x \in sess}
K1 == CHOOSE k \in Clusters : TRUE
Requests == ({"health", "list", "create"} \X {K1} \X Sess \X Creds \X {"-"})
       \cup ({"get", "scale", "delete"} \X Clusters \X Sess \X Creds \X {"-"})
       \cup ({"list", "create", "get", "scale", "delete", "heartbeat"} \X Clusters \X Sess \X {<<"none", Nobody>>} \X Clusters)
Next == (\E r \in Requests : Request(r[1], r[2], r[3], r[4], r[5])) \/ Tick \/ Forget
Spec == Init /\ [][Next]_vars

Sound == last = {}
Step == [][\A k \in DOMAIN owner : owner'[k] = owner[k]]_vars
=============================================================================
