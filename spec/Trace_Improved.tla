---------------------------- MODULE Trace_Improved ----------------------------
(* T02: recorded runs of improved time iteration.                              *)
EXTENDS TraceCore, Equilibrium
VARIABLES mod, run, tally    \* tally: runs with many iterations allowed, of which did not converge
E == Ev
M == Trace[mod]
R == Trace[run]
TraceInit == TraceCoreInit /\ mod = 0 /\ run = 0 /\ tally = <<0, 0>>
Model == /\ IsEvent("Model") /\ mod' = l /\ UNCHANGED <<run, tally>>
         /\ Consume(<< <<"model-is-accepted", E.outcome = "ok", E.outcome>> >>)
Con == M.bounds # <<>> /\ ~ E.ignore
Tol == RAdd(RMul("10", E.tol), "1/100000000")
Future(p) == Force(Futures(M, E.nodes[p.i + 1], E.atoms[p.i + 1], UniformNode(E.rule.min, E.rule.max, E.rule.n, p.n + 1), p.x))
PointOk(p) ==
  LET m == E.nodes[p.i + 1]
      s == UniformNode(E.rule.min, E.rule.max, E.rule.n, p.n + 1)
      F == Future(p)
  IN Covered(E.rule, F) => Optimal(M, Con, m, s, p.x, Force(Euler(M, E.rule, E.V, m, F, s, p.x)), Tol)
Run ==
  /\ IsEvent("Run") /\ run' = l /\ UNCHANGED mod
  /\ tally' = (IF E.outcome = "ok" /\ E.maxit >= 60 THEN <<tally[1] + 1, tally[2] + (IF E.converged THEN 0 ELSE 1)>> ELSE tally)
  /\ Consume(IF E.outcome # "ok" THEN << <<"solves", FALSE, <<E.outcome, E.how>> >> >> ELSE
      << <<"bounds-are-used-unless-ignored", E.complementarities = Con>>,
         <<"never-exceeds-the-limit", E.N <= E.maxit>>,
         <<"convergence-is-truthful", E.converged = RLt(E.fx, E.tol)>>,
         <<"contractions-are-solved", tally'[1] >= 4 => 2 * tally'[2] <= tally'[1], tally'>> >> \o
      (IF ~ E.converged THEN <<>> ELSE
       [k \in 1..Len(E.points) |-> <<"fixed-point-solves-the-optimality-conditions", PointOk(E.points[k]), <<E.how, E.points[k].i, E.points[k].n>> >>] \o
       (IF ~ Con THEN <<>> ELSE [k \in 1..Len(E.points) |->
          <<"controls-respect-their-bounds", Within(M, E.nodes[E.points[k].i + 1], UniformNode(E.rule.min, E.rule.max, E.rule.n, E.points[k].n + 1), E.points[k].x, Tol)>>])))
Same == /\ IsEvent("Same") /\ UNCHANGED <<mod, run, tally>>
        /\ Consume(<< <<"options-of-display-change-nothing", E.outcome = "ok" /\ (E.outcome = "ok" => RLe(Change(E.V, R.V), "1/1000000000")), E.opts>> >>)
(* an economy of MC_Equilibrium, solved by the real code *)
Economy ==
  /\ IsEvent("Economy") /\ UNCHANGED <<mod, run, tally>>
  /\ Consume(<< <<"economies-of-the-specification-are-solved", E.outcome = "ok" /\ E.conv /\ RClose(E.x, E.b.x, "1/100000") /\ RClose(E.y, E.b.x, "1/100000"),
                 <<E.outcome, E.b.a, E.b.c, E.b.lb, E.b.ub>> >> >>)
Claim ==
  /\ IsEvent("Claim") /\ UNCHANGED <<mod, run, tally>>
  /\ Consume(IF E.outcome # "ok" THEN << <<"solves", FALSE, <<E.outcome, E.a>> >> >>
             ELSE << <<"convergence-is-truthful", E.converged = RLt(E.fx, E.tol), <<E.a, E.tol, E.maxit, E.fx>> >>,
                     <<"never-exceeds-the-limit", E.N <= E.maxit>> >>)
StoppedS == Stopped /\ UNCHANGED <<mod, run, tally>>
TraceNext == Model \/ Run \/ Same \/ Economy \/ Claim \/ StoppedS
=============================================================================
