--------------------------------- MODULE Value ---------------------------------
(***************************************************************************)
(* Values of policies and best choices on a discretized model.              *)
(* px, PX: the policy (rule and values at the nodes); pv, PV: the value     *)
(* function.                                                                *)
(***************************************************************************)
EXTENDS Equilibrium

(* expected right-hand side of the value equations at (m, s, x)             *)
Evaluated(M, px, PX, pv, PV, m, F, s, x, v) ==
  LET f(z) == Meaning(M, "value", <<m, s, x, v, z.m, z.s, RoundAll(RuleValue(px, PX, z.j, z.m, z.s)), RoundAll(RuleValue(pv, PV, z.j, z.m, z.s)), M.p>>)
  IN Expect(F, f, 1)
(* the value of choosing x now                                              *)
Choice(M, beta, pv, PV, m, F, s, x) ==
  LET f(z) == RoundAll(RuleValue(pv, PV, z.j, z.m, z.s))
  IN RAdd(Meaning(M, "felicity", <<m, s, x, M.p>>)[1], RMul(beta, Expect(F, f, 1)[1]))
(* a feasible alternative, at fraction th of the bounds (or th away from x) *)
Feasible(lb, ub, x, th) ==
  [k \in 1..Len(x) |-> IF RFin(lb[k]) /\ RFin(ub[k]) THEN RAdd(lb[k], RMul(th[k], RSub(ub[k], lb[k])))
                       ELSE RMin(RMax(RAdd(x[k], RSub(th[k], "1/2")), lb[k]), ub[k])]
=============================================================================
