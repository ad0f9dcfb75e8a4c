------------------------------ MODULE Equilibrium ------------------------------
(***************************************************************************)
(* Optimality conditions of a discretized model.                           *)
(*                                                                         *)
(* m[i]: exogenous nodes; at[i]: the law of next period's exogenous value   *)
(* at node i, a sequence of [w, m, j].  V: values, at the grid nodes, of    *)
(* the rule r followed from next period on.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, RuleEval

Successor(M, m, s, x, m2) == LET z == Meaning(M, "transition", <<m, s, x, m2, M.p>>) IN [k \in 1..Len(z) |-> RRound(z[k])]
RoundAll(z) == [k \in 1..Len(z) |-> RRound(z[k])]
(* the law of what follows node (m, s) under control x: a sequence of       *)
(* [w, m, s, j]                                                             *)
Futures(M, m, at, s, x) == [k \in 1..Len(at) |-> [w |-> at[k].w, m |-> at[k].m, j |-> at[k].j, s |-> Successor(M, m, s, x, at[k].m)]]
Covered(r, F) == \A k \in 1..Len(F) : REq(F[k].w, "0") \/ Specified(r, F[k].j, F[k].m, F[k].s)
RECURSIVE Expect(_, _, _)
Expect(F, Op(_), k) ==
  IF k > Len(F) THEN <<>>
  ELSE IF REq(F[k].w, "0") THEN Expect(F, Op, k + 1)
  ELSE LET v == RoundAll(VMul(F[k].w, Op(F[k])))
           t == Expect(F, Op, k + 1)
       IN IF t = <<>> THEN v ELSE VAdd(v, t)
(* expected residuals of the optimality conditions at (m, s) under x        *)
Euler(M, r, V, m, F, s, x) ==
  LET f(z) == Meaning(M, "arbitrage", <<m, s, x, z.m, z.s, RoundAll(RuleValue(r, V, z.j, z.m, z.s)), M.p>>)
  IN Expect(F, f, 1)
(* zero iff x is optimal: residual 0 inside the bounds, nonnegative at the  *)
(* lower bound, nonpositive at the upper one                                *)
Slack(f, lb, ub, x) == RMin(RMax(RNeg(f), RSub(lb, x)), RSub(ub, x))
Lower(M, m, s) == IF M.bounds = <<>> THEN [k \in 1..Len(M.symbols.controls) |-> "-inf"] ELSE Meaning(M, "arbitrage_lb", <<m, s, M.p>>)
Upper(M, m, s) == IF M.bounds = <<>> THEN [k \in 1..Len(M.symbols.controls) |-> "inf"] ELSE Meaning(M, "arbitrage_ub", <<m, s, M.p>>)
Optimal(M, con, m, s, x, e, tol) ==
  LET lb == IF con THEN Lower(M, m, s) ELSE [k \in 1..Len(x) |-> "-inf"]
      ub == IF con THEN Upper(M, m, s) ELSE [k \in 1..Len(x) |-> "inf"]
  IN Len(e) = Len(x) /\ \A k \in 1..Len(x) : RLe(RAbs(Slack(e[k], lb[k], ub[k], x[k])), tol)
Within(M, m, s, x, tol) ==
  LET lb == Lower(M, m, s) ub == Upper(M, m, s)
  IN \A k \in 1..Len(x) : RLe(lb[k], RAdd(x[k], tol)) /\ RLe(RSub(x[k], tol), ub[k])
RECURSIVE MaxAbs(_)
MaxAbs(z) == IF z = <<>> THEN "0" ELSE RMax(RAbs(Head(z)), MaxAbs(Tail(z)))
(* largest change between two tables of values *)
RECURSIVE MaxOf(_)
MaxOf(z) == IF z = <<>> THEN "0" ELSE RMax(Head(z), MaxOf(Tail(z)))
Change(V, W) == MaxAbs(Flat(Flat(VSub(V, W))))
=============================================================================
