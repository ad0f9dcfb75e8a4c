-------------------------------- MODULE Iterate --------------------------------
(***************************************************************************)
(* Successive approximations with a stopping rule:                         *)
(*   x' = Step(x); stop at the first change below tol, or after maxit.     *)
(* State: it (iterations done), x, err (last change), done, converged.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat

(* what a run reports, given the changes made by its iterations             *)
Truthful(changes, tol, maxit, iterations, converged) ==
  /\ iterations = Len(changes)
  /\ iterations <= maxit
  /\ \A k \in 1..(Len(changes) - 1) : RLe(tol, changes[k])         \* it stopped at the first one
  /\ converged => RLe(changes[Len(changes)], tol)
  /\ RLt(changes[Len(changes)], tol) => converged
  /\ ~ converged => (iterations = maxit \/ REq(changes[Len(changes)], tol))
=============================================================================
