------------------------------ MODULE AccessGen ------------------------------
(* Request scripts from behaviours of Access (simulation). *)
EXTENDS Access, Sequences, Json
CONSTANT Depth
VARIABLE script
GInit == Init /\ script = <<>>
S(s) == IF s = {} THEN "" ELSE (CHOOSE x \in s : TRUE).user
GNext == \/ \E r \in Requests : /\ Request(r[1], r[2], r[3], r[4], r[5])
                                /\ script' = Append(script, <<r[1], r[2], S(r[3]), r[4][1], r[4][2], r[5]>>)
         \/ Tick /\ script' = Append(script, <<"tick">>)
         \/ Forget /\ UNCHANGED script
GSpec == GInit /\ [][GNext]_<<vars, script>>
Emit == Len(script) < Depth \/ PrintT("@@" \o ToJson(script))
Stop == Len(script) < Depth
=============================================================================
