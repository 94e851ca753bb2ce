------------------------------- MODULE Limits -------------------------------
(* Per-cluster resource limits: what each combination of settings allows.
   ms/mw: memory of the scheduler and of a worker; mm: memory limit of the cluster;
   cs/cw/cm: cores likewise; n: limit on the number of workers.  A setting comes from the
   options handler if it sets it, else from the administrator's configuration if it sets it,
   else it is the default.                                                              *)
EXTENDS Integers, FiniteSets

Unset == -2
None == -1
Names == {"ms", "mw", "mm", "cs", "cw", "cm", "n"}
Optional == {"mm", "cm", "n"}

Effective(default, admin, over) ==
  [x \in Names |-> IF over[x] # Unset THEN over[x] ELSE IF admin[x] # Unset THEN admin[x] ELSE default[x]]

\* a scheduler that alone exceeds a limit
Refused(e) == (e.mm # None /\ e.ms > e.mm) \/ (e.cm # None /\ e.cs > e.cm)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Bounds(e) == (IF e.n # None THEN {e.n} ELSE {})
             \cup (IF e.mm # None THEN {(e.mm - e.ms) \div e.mw} ELSE {})
             \cup (IF e.cm # None THEN {(e.cm - e.cs) \div e.cw} ELSE {})
Limit(e) == IF Bounds(e) = {} THEN None ELSE MinOf(Bounds(e))

\* k workers stay within everything that was configured
Fits(e, k) == /\ e.mm # None => e.ms + k * e.mw <= e.mm
              /\ e.cm # None => e.cs + k * e.cw <= e.cm
              /\ e.n # None => k <= e.n
\* the limit is the largest number of workers that fits
Right(e) == ~Refused(e) => IF Limit(e) = None THEN \A k \in 0..40 : Fits(e, k)
                           ELSE Limit(e) >= 0 /\ Fits(e, Limit(e)) /\ ~Fits(e, Limit(e) + 1)

---------------------------------------------------------------------------
\* Requests to change the size of a cluster whose limit is lim (None: no limit)
Least(a, b) == IF a < b THEN a ELSE b
\* sizes: [given, num (is a number), int (is an integer), n]
ScaleOk(count) == count.given /\ count.int /\ count.n >= 0
SizeOk(x) == ~x.given \/ (x.num /\ x.n >= 0)
ScaleSends(count, lim) == IF lim = None THEN count.n ELSE Least(count.n, lim)
ScaleReduced(count, lim) == lim # None /\ count.n > lim
\* sent: [min, max], None where null; a limited cluster is always given a maximum
AdaptMax(max, lim) == IF lim = None THEN IF max.given THEN max.n ELSE None
                      ELSE IF max.given THEN Least(max.n, lim) ELSE lim
AdaptMin(min, lim) == IF ~min.given THEN None ELSE IF lim = None THEN min.n ELSE Least(min.n, lim)
AdaptReduced(min, max, lim) == lim # None /\ ((min.given /\ min.n > lim) \/ (max.given /\ max.n > lim))
=============================================================================
