---------------------------- MODULE RouteLogGen ----------------------------
(* Schedules for the real route log: behaviours of RouteLog as scripts. *)
EXTENDS RouteLog, Json
CONSTANT Depth
VARIABLE script
G(op) == script' = Append(script, op)
GNext == \/ \E k \in Keys : Del(k) /\ G(<<"del", k>>)
         \/ \E k \in Keys, v \in Vals : Put(k, v) /\ G(<<"put", k, v>>)
         \/ \E f \in Followers : \/ List(f) /\ G(<<"list", f>>)
                                 \/ Watch(f) /\ G(<<"watch", f>>)
                                 \/ Gone(f) /\ G(<<"watch", f>>)
                                 \/ Recv(f) /\ G(<<"settle", f>>)
                                 \/ Drop(f) /\ G(<<"drop", f>>)
         \/ Restart /\ G(<<"restart">>)
GSpec == Init /\ script = <<>> /\ [][GNext]_<<inc, log, kept, fol, script>>
Emit == (TLCGet("level") = Depth) => PrintT("@@" \o ToJson(script))
Stop == TLCGet("level") < Depth
=============================================================================
