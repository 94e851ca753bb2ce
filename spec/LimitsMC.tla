------------------------------ MODULE LimitsMC ------------------------------
(* Every combination of settings over small domains; with EMIT set, also printed as test
   vectors for the real configuration classes.                                        *)
EXTENDS Limits, Sequences, TLC, Json, IOUtils
CONSTANTS Vary,       \* settings that vary; the others are unset
          Sizes, Caps, Counts
VARIABLES admin, over, todo
Default == [ms |-> 4, mw |-> 4, mm |-> None, cs |-> 4, cw |-> 4, cm |-> None, n |-> None]
Dom(x) == IF x \in {"mm", "cm"} THEN Caps ELSE IF x = "n" THEN Counts ELSE Sizes
AllUnset == [x \in Names |-> Unset]
Init == admin = AllUnset /\ over = AllUnset /\ todo = Vary
Next == todo # {} /\ LET x == CHOOSE x \in todo : TRUE
                     IN /\ \E v \in Dom(x) \cup {Unset} : admin' = [admin EXCEPT ![x] = v]
                        /\ \E v \in Dom(x) \cup {Unset} \cup (IF x \in Optional THEN {None} ELSE {}) : over' = [over EXCEPT ![x] = v]
                        /\ todo' = todo \ {x}
Spec == Init /\ [][Next]_<<admin, over, todo>>
E == Effective(Default, admin, over)
Sound == todo = {} => Right(E)
Short(f) == <<f.ms, f.mw, f.mm, f.cs, f.cw, f.cm, f.n>>
Emit == todo # {} \/ "EMIT" \notin DOMAIN IOEnv
        \/ PrintT("@@" \o ToJson(<<Short(admin), Short(over), Refused(E), Limit(E)>>))
=============================================================================
