---------------------------- MODULE OptionsTrace ----------------------------
(* Cluster creations on the real gateway follow Options.

   A trace: [decls (user -> declaration), handler ("none": the options are the settings),
   admin (the administrator's settings), events].  A creation: user, whether the options were
   an object (`object`), what they were, the answer, and (where created) the stored options,
   the configuration, what the handler was given and gave, and all other settings.        *)
EXTENDS Options, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, others
Tr == Traces[t].events
cfg == Traces[t]
ev == Tr[l]
Init == t \in 1..Len(Traces) /\ l = 1 /\ others = ""

Q(b, what) == IF b THEN {} ELSE {what}
Fs == cfg.decls[ev.user]
Known(o) == [x \in DOMAIN o \cap Settings |-> o[x]]
Same(a, b) == a.ty = b.ty /\ a.s = b.s     \* (n is that of s, where it fits)
Creation ==
  IF ~ev.object
  THEN Q(~ev.created /\ ev.st >= 400, "options that are not an object were accepted")
  ELSE
  LET valid == Accepts(Fs, ev.req)
      sees == HandlerSees(Fs, ev.req)
      over == IF cfg.handler = "none" THEN Known(sees) ELSE Known(ev.hout)
      handled == cfg.handler = "none" \/ ev.hok
      ok == valid /\ handled /\ OverOk(over)
  IN Q(ok \/ (~ev.created /\ ev.st = 422), "invalid options must be refused with a client error and create nothing")
     \cup Q(~valid \/ ~ok \/ (ev.created /\ ev.st = 201), "valid options were refused")
     \cup Q(valid \/ ~ev.called, "the handler was given options that are not valid")
     \cup (IF ~ev.called THEN {} ELSE
           Q(ev.huser = ev.user, "the handler was given another user")
           \cup Q(~valid \/ ev.hin = sees, "the handler was given something else than the validated options"))
     \cup (IF ~(ok /\ ev.created) THEN {} ELSE
           Q(cfg.mutates \/ ev.stored = Options(Fs, ev.req), "the recorded options are not the validated ones")
           \cup UNION {Q(Same(ev.config[x], Config(cfg.admin, over)[x]), "setting " \o x \o " is not the one configured") : x \in Settings}
           \cup Q(others \in {"", ev.others}, "a setting that nobody set varies"))
Listing == Q(ev.st = 200 /\ Len(ev.fields) = Len(Fs)
             /\ \A i \in 1..Len(Fs) : i <= Len(ev.fields) =>
                  LET d == Fs[i] o == ev.fields[i]
                  IN o.field = d.field /\ o.kind = d.kind /\ o.dflt = d.dflt /\ o.keys = [j \in 1..Len(d.choices) |-> d.choices[j].key]
                     /\ (d.kind \in {"int", "float"} => o.lo = d.lo /\ o.hi = d.hi),
             "the options offered are not the ones declared")
Why == IF ev.e = "create" THEN Creation ELSE Listing
Verdict(ok, why) == PrintT("@@" \o ToJson([t |-> t, ok |-> ok, at |-> l, why |-> why]))
Step == /\ l \in 1..Len(Tr)
        /\ IF Why = {} THEN l' = l + 1 /\ others' = (IF ev.e = "create" /\ ev.created THEN ev.others ELSE others)
           ELSE Verdict(FALSE, Why) /\ l' = 0 /\ UNCHANGED others
        /\ UNCHANGED t
Accept == l = Len(Tr) + 1 /\ Verdict(TRUE, {}) /\ l' = 0 /\ UNCHANGED <<t, others>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<t, l, others>>
=============================================================================
