------------------------------ MODULE OptionsMC ------------------------------
(* Every declared field of a catalogue against every value of a catalogue; with EMIT set,
   also printed as requests for the real gateway.                                        *)
EXTENDS Options, Json, IOUtils
VARIABLES f, v, g
vars == <<f, v, g>>
I(k) == V("int", k * 1000, ToString(k))
F(n, s) == V("float", n, s)
S(s) == V("str", 0, s)
B(b) == V("bool", 0, b)
M(s) == V("map", 0, s)
D(field, kind, dflt, lo, hi, ch) == [field |-> field, target |-> field, kind |-> kind, dflt |-> dflt, lo |-> lo, hi |-> hi, choices |-> ch]
K(key, val) == [key |-> key, val |-> val]
Catalogue == <<
  D("worker_cores", "int", I(2), <<1000>>, <<4000>>, <<>>),
  D("worker_cores", "int", I(1), <<>>, <<4000>>, <<>>),
  D("worker_cores", "int", I(1), <<>>, <<>>, <<>>),
  D("idle_timeout", "float", F(1500, "1.5"), <<500>>, <<2500>>, <<>>),
  D("idle_timeout", "float", F(0, "0.0"), <<0>>, <<>>, <<>>),
  D("idle_timeout", "float", F(0, "0.0"), <<>>, <<>>, <<>>),
  D("worker_cmd", "string", S("w"), <<>>, <<>>, <<>>),
  D("worker_memory", "select", S("a"), <<>>, <<>>, <<K("a", S("1 G")), K("2 G", S("4G"))>>),
  D("flag", "bool", B("true"), <<>>, <<>>, <<>>),
  D("environment", "mapping", M("{\"a\": \"b\"}"), <<>>, <<>>, <<>>) >>
Values == << I(0), I(1), I(2), I(4), I(5), I(-1), F(500, "0.5"), F(499, "0.499"), F(2500, "2.5"), F(2501, "2.501"), F(1000, "1.0"), F(-500, "-0.5"),
  V("nan", 0, "NaN"), F(2000000000, "Infinity"), F(-2000000000, "-Infinity"), B("true"), B("false"), V("null", 0, "null"),
  S(""), S("a"), S("A"), S("1"), S("1 G"), S("2 G"), S("w"), S("true"), M("{}"), M("{\"a\": \"c\"}"), M("{\"x\": {\"y\": [1]}}"),
  V("list", 0, "[]"), V("list", 0, "[1]"), V("list", 0, "[\"a\"]") >>
Init == f = 0 /\ v = 0 /\ g = 0
Next == /\ f = 0
        /\ f' \in 1..Len(Catalogue) /\ v' \in 0..Len(Values) /\ g' \in 0..Len(Catalogue)   \* v 0: omitted; g: another field, or none
        /\ (g' = 0 \/ Catalogue[g'].field # Catalogue[f'].field)
Spec == Init /\ [][Next]_vars
Decls == IF g = 0 THEN <<Catalogue[f]>> ELSE <<Catalogue[g], Catalogue[f]>>
Req == IF v = 0 THEN <<>> ELSE (Catalogue[f].field :> Values[v])
Ok == f > 0 /\ Accepts(Decls, Req)
\* every field has a valid value, defaults included; validation of the outcome changes nothing
Complete == Ok => /\ DOMAIN Options(Decls, Req) = Fields(Decls)
                  /\ \A d \in ToSet(Decls) : Valid(d, Options(Decls, Req)[d.field])
                  /\ Options(Decls, Options(Decls, Req)) = Options(Decls, Req)
\* what the handler is given is a declared choice or within the declared bounds
Bounded == Ok => \A d \in ToSet(Decls) :
             LET x == HandlerSees(Decls, Req)[d.target]
             IN /\ d.kind = "select" => x \in {c.val : c \in ToSet(d.choices)}
                /\ d.kind \in {"int", "float"} /\ d.lo # <<>> => x.ty # "nan" /\ x.n >= d.lo[1]
                /\ d.kind \in {"int", "float"} /\ d.hi # <<>> => x.ty # "nan" /\ x.n <= d.hi[1]
\* nothing but exposed settings differs from the administrator's configuration
Exposed == LET over == [x \in DOMAIN HandlerSees(Decls, Req) \cap Settings |-> HandlerSees(Decls, Req)[x]]
           IN Ok /\ OverOk(over) =>
              \A x \in Settings \ {d.target : d \in ToSet(Decls)} :
                 (x = "worker_threads") \/ Config(<<>>, over)[x] = Default(x)
\* an undeclared option is always refused
Unknown == f > 0 => ~Accepts(Decls, ("nope" :> I(1)) @@ Req)
Emit == f = 0 \/ "EMIT" \notin DOMAIN IOEnv \/ PrintT("@@" \o ToJson([decls |-> Decls, req |-> Req, given |-> v > 0]))
=============================================================================
