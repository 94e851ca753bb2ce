------------------------------- MODULE Options -------------------------------
(* Exposed cluster options and the configuration they lead to.

   A JSON value is [ty, n, s]: its type, for numbers a thousand times its value, and a
   canonical text.  A declared field is [field, target, kind, dflt, lo, hi, choices]: lo and hi
   are sequences (empty: unbounded), choices a sequence of [key, val].                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Numbers == {"int", "float"}
InBounds(f, v) == (f.lo = <<>> \/ v.n >= f.lo[1]) /\ (f.hi = <<>> \/ v.n <= f.hi[1])
Keys(f) == {c.key : c \in ToSet(f.choices)}

Valid(f, v) ==
  CASE f.kind = "string" -> v.ty = "str"
    [] f.kind = "bool" -> v.ty = "bool"
    [] f.kind = "mapping" -> v.ty = "map"
    [] f.kind = "int" -> v.ty = "int" /\ InBounds(f, v)
    [] f.kind = "float" -> \/ v.ty \in Numbers /\ InBounds(f, v)
                           \/ v.ty = "nan" /\ f.lo = <<>> /\ f.hi = <<>>
    [] f.kind = "select" -> v.ty = "str" /\ v.s \in Keys(f)

\* as stored: floats are floats
Stored(f, v) == IF f.kind = "float" /\ v.ty = "int" THEN [ty |-> "float", n |-> v.n, s |-> v.s \o ".0"] ELSE v
\* as handed to the handler: the value chosen
Chosen(f, v) == IF f.kind = "select" THEN (CHOOSE c \in ToSet(f.choices) : c.key = v.s).val ELSE v

\* fs: declaration (a sequence of fields); req: what the request gives (field -> value)
Fields(fs) == {f.field : f \in ToSet(fs)}
Get(f, req) == IF f.field \in DOMAIN req THEN req[f.field] ELSE f.dflt
Accepts(fs, req) == DOMAIN req \subseteq Fields(fs) /\ \A f \in ToSet(fs) : Valid(f, Get(f, req))
Decl(fs, name) == CHOOSE f \in ToSet(fs) : f.field = name
Options(fs, req) == [name \in Fields(fs) |-> LET f == Decl(fs, name) IN Stored(f, Get(f, req))]
HandlerSees(fs, req) ==
  [tg \in {f.target : f \in ToSet(fs)} |->
     LET f == CHOOSE f \in ToSet(fs) : f.target = tg IN Chosen(f, Stored(f, Get(f, req)))]

---------------------------------------------------------------------------
\* The configuration: what each setting accepts, and how it is normalised
Bytes == ("1 G" :> "1073741824") @@ ("2 G" :> "2147483648") @@ ("4G" :> "4294967296") @@ ("512 M" :> "536870912")
         @@ ("0.5G" :> "536870912") @@ ("1T" :> "1099511627776") @@ ("100K" :> "102400")
Cores == {"worker_cores", "scheduler_cores"}
Memory == {"worker_memory", "scheduler_memory"}
Times == {"idle_timeout", "adaptive_period"}
Cmds == {"worker_cmd", "scheduler_cmd"}
Settings == Cores \cup Memory \cup Times \cup Cmds \cup {"worker_threads", "environment", "cluster_max_workers"}
SetOk(x, v) ==
  CASE x \in Cores -> v.ty = "int" /\ v.n >= 1000
    [] x = "worker_threads" -> v.ty = "null" \/ (v.ty = "int" /\ v.n >= 1000)
    [] x = "cluster_max_workers" -> v.ty = "null" \/ (v.ty = "int" /\ v.n >= 0)
    [] x \in Memory -> v.ty = "int" \/ (v.ty = "str" /\ v.s \in DOMAIN Bytes)
    [] x \in Times -> v.ty = "nan" \/ (v.ty \in Numbers /\ v.n >= 0)
    [] x \in Cmds -> v.ty = "str" \/ (v.ty = "list" /\ v.s # "[]")
    [] x = "environment" -> v.ty = "map"
Normal(x, v) ==
  CASE x \in Memory /\ v.ty = "str" -> [ty |-> "int", n |-> 0, s |-> Bytes[v.s]]
    [] x \in Times /\ v.ty = "int" -> [ty |-> "float", n |-> v.n, s |-> v.s \o ".0"]
    [] x \in Cmds /\ v.ty = "str" -> [ty |-> "list", n |-> 0, s |-> "[\"" \o v.s \o "\"]"]
    [] OTHER -> v
V(ty, n, s) == [ty |-> ty, n |-> n, s |-> s]
Default(x) ==
  CASE x \in Cores -> V("int", 1000, "1")
    [] x \in Memory -> V("int", 0, "2147483648")
    [] x = "idle_timeout" -> V("float", 0, "0.0")
    [] x = "adaptive_period" -> V("float", 3000, "3.0")
    [] x = "worker_cmd" -> V("list", 0, "[\"dask-worker\"]")
    [] x = "scheduler_cmd" -> V("list", 0, "[\"dask-scheduler\"]")
    [] x = "environment" -> V("map", 0, "{}")
    [] OTHER -> V("null", 0, "null")
\* the administrator's settings overridden by those of the handler
Config1(admin, over) ==
  [x \in Settings |-> IF x \in DOMAIN over THEN Normal(x, over[x]) ELSE IF x \in DOMAIN admin THEN Normal(x, admin[x]) ELSE Default(x)]
Config(admin, over) ==
  LET c == Config1(admin, over)
  IN IF c.worker_threads.ty = "null" THEN [c EXCEPT !.worker_threads = c.worker_cores] ELSE c
OverOk(over) == \A x \in DOMAIN over \cap Settings : SetOk(x, over[x])
=============================================================================
