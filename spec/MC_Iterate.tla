------------------------------ MODULE MC_Iterate ------------------------------
(* The stopping protocol on x' = c x, exhaustively over contractions,          *)
(* tolerances and limits.  Faults: "late" stops one iteration too late,        *)
(* "claims" always reports convergence, "over" does one iteration too many.    *)
EXTENDS Iterate, TLC, Json
CONSTANTS Fault, MaxIt, Emit
VARIABLES c, tol, maxit, x, it, changes, done, conv
vars == <<c, tol, maxit, x, it, changes, done, conv>>
Err == IF changes = <<>> THEN "10" ELSE changes[Len(changes)]
Prev == IF Len(changes) < 2 THEN "10" ELSE changes[Len(changes) - 1]
Init == /\ c \in {"1/2", "1/4", "-1/2", "0", "1"} /\ tol \in {"5/8", "5/32", "5/256", "5/4096"} /\ maxit \in 1..MaxIt
        /\ x = "1" /\ it = 0 /\ changes = <<>> /\ done = FALSE /\ conv = FALSE
Limit == IF Fault = "over" THEN maxit + 1 ELSE maxit
Go == RLt(tol, IF Fault = "late" THEN Prev ELSE Err) /\ it < Limit
Step == /\ ~ done /\ Go
        /\ LET y == RMul(c, x) IN x' = y /\ changes' = Append(changes, RAbs(RSub(y, x)))
        /\ it' = it + 1 /\ UNCHANGED <<c, tol, maxit, done, conv>>
Stop == /\ ~ done /\ ~ Go /\ done' = TRUE
        /\ conv' = (IF Fault = "claims" THEN TRUE ELSE RLt(Err, tol))
        /\ UNCHANGED <<c, tol, maxit, x, it, changes>>
Next == Step \/ Stop
Ok == done => Truthful(changes, tol, maxit, it, conv)
Steps == it = Len(changes) /\ it <= MaxIt + 1
Runs == (Emit /\ done) => PrintT("@@B " \o ToJson([c |-> c, tol |-> tol, maxit |-> maxit, it |-> it, x |-> x, conv |-> conv, err |-> Err]))
=============================================================================
