------------------------------- MODULE Trace_Value -------------------------------
(* V01: recorded policy evaluations and value function iterations.               *)
EXTENDS TraceCore, Value
VARIABLES mod, tally
E == Ev
M == Trace[mod]
TraceInit == TraceCoreInit /\ mod = 0 /\ tally = <<0, 0>>
Model == /\ IsEvent("Model") /\ mod' = l /\ UNCHANGED tally
         /\ Consume(<< <<"model-is-accepted", E.outcome = "ok", E.outcome>> >>)
NodeM(p) == E.nodes[p.i + 1]
NodeS(p) == UniformNode(E.vrule.min, E.vrule.max, E.vrule.n, p.n + 1)
Fut(p, x) == Force(Futures(M, NodeM(p), E.atoms[p.i + 1], NodeS(p), x))
At(V, p) == V[p.i + 1][p.n + 1]
(* the value equation at a node, up to the reported error *)
ValueOk(p, tol) ==
  LET F == Fut(p, p.x) v == At(E.V, p) IN
  (Covered(E.vrule, F) /\ Covered(E.xrule, F)) =>
     LET w == Evaluated(M, E.xrule, E.X, E.vrule, E.V, NodeM(p), F, NodeS(p), p.x, v)
     IN Len(w) = Len(v) /\ \A k \in 1..Len(v) : RFin(v[k]) /\ RLe(RAbs(RSub(v[k], w[k])), RAdd(tol, RMul("1/10000000000", RMax("1", RAbs(w[k])))))
PolicyX(p) == RuleAgrees(E.xrule, E.X, p.i, NodeM(p), NodeS(p), p.x, "1/1000000000")
Policy ==
  /\ IsEvent("Policy") /\ UNCHANGED mod
  /\ tally' = (IF E.outcome = "ok" /\ E.maxit > 1000 THEN <<tally[1] + 1, tally[2] + (IF RLe(E.err, E.tol) THEN 0 ELSE 1)>> ELSE tally)
  /\ Consume(IF E.outcome # "ok" THEN << <<"evaluates", FALSE, <<E.outcome, E.how>> >> >> ELSE
      << <<"never-exceeds-the-limit", E.iterations <= E.maxit>>,
         <<"stops-below-tolerance-or-at-the-limit", RLe(E.err, E.tol) \/ E.iterations = E.maxit>>,
         <<"reports-the-tolerance", REq(E.rtol, E.tol)>>,
         <<"discounted-values-converge", tally'[1] >= 2 => tally'[2] = 0, tally'>>,
         <<"policy-is-left-alone", E.intact>>, <<"initial-guess-is-left-alone", E.guess>> >> \o
      [k \in 1..Len(E.points) |-> <<"policy-at-the-nodes", PolicyX(E.points[k])>>] \o
      [k \in 1..Len(E.points) |-> <<"value-equation-holds-within-the-reported-error", ValueOk(E.points[k], E.err), <<E.how, E.points[k].i, E.points[k].n>> >>])
Alternatives(p, V) ==
  LET F == Fut(p, p.x)
      q == Choice(M, E.beta, E.vrule, V, NodeM(p), F, NodeS(p), p.x)
      lb == Lower(M, NodeM(p), NodeS(p)) ub == Upper(M, NodeM(p), NodeS(p))
      alt(th) == LET y == Feasible(lb, ub, p.x, th)
                     G == Fut(p, y)
                 IN Covered(E.vrule, G) => RLe(Choice(M, E.beta, E.vrule, V, NodeM(p), G, NodeS(p), y), RAdd(q, "1/500000"))
  IN Covered(E.vrule, F) => \A k \in 1..Len(p.alt) : alt(p.alt[k])
Achieved(p, V) ==
  LET F == Fut(p, p.x) IN
  Covered(E.vrule, F) => RClose(At(E.V, p)[1], Choice(M, E.beta, E.vrule, V, NodeM(p), F, NodeS(p), p.x), "1/50000")
Best ==
  /\ IsEvent("Best") /\ UNCHANGED mod
  /\ tally' = (IF E.outcome = "ok" /\ E.maxit > 20 THEN <<tally[1] + 1, tally[2] + (IF E.xconv /\ RLe(E.verr, E.tol) THEN 0 ELSE 1)>> ELSE tally)
  /\ Consume(IF E.outcome # "ok" THEN << <<"optimizes", FALSE, <<E.outcome, E.how>> >> >> ELSE
      << <<"never-exceeds-the-limit", E.iterations <= E.maxit>>,
         <<"convergence-is-truthful", E.xconv = RLt(E.xerr, E.xtol) /\ E.vconv = RLt(E.verr, E.vtol)>>,
         <<"stops-below-tolerance-or-at-the-limit", E.iterations = E.maxit \/ (RLe(E.xerr, E.xtol) /\ RLe(E.verr, E.tol))>>,
         <<"concave-choices-settle", E.maxit > 20 => (RLe(E.verr, "1/10000") /\ RLe(E.xerr, "1/100")), <<E.how, E.verr, E.xerr>> >>,
         <<"concave-choices-converge", tally'[1] >= 4 => 4 * tally'[2] <= tally'[1], tally'>> >> \o
      [k \in 1..Len(E.points) |-> <<"choices-respect-their-bounds", Within(M, NodeM(E.points[k]), NodeS(E.points[k]), E.points[k].x, "1/1000000000")>>] \o
      (IF E.maxit > 1 THEN <<>> ELSE      \* the first iteration starts from the value of the constant policy
       [k \in 1..Len(E.points) |-> <<"first-choice-is-best-for-the-initial-policy", Alternatives(E.points[k], E.first), <<E.how, E.points[k].i, E.points[k].n>> >>] \o
       [k \in 1..Len(E.points) |-> <<"first-value-is-that-of-the-choice", Achieved(E.points[k], E.first), <<E.how, E.points[k].i, E.points[k].n>> >>]) \o
      (IF ~ (E.xconv /\ RLe(E.verr, E.tol)) THEN <<>> ELSE
       [k \in 1..Len(E.points) |-> <<"no-feasible-alternative-is-better", Alternatives(E.points[k], E.V), <<E.how, E.points[k].i, E.points[k].n>> >>] \o
       [k \in 1..Len(E.points) |-> <<"value-is-that-of-the-choice", Achieved(E.points[k], E.V), <<E.how, E.points[k].i, E.points[k].n>> >>] \o
       [k \in 1..Len(E.points) |-> <<"value-is-that-of-the-policy", ValueOk(E.points[k], "1/20000"), <<E.how, E.points[k].i, E.points[k].n>> >>]))
(* a chain of MC_Value, evaluated by the real code *)
Chain == /\ IsEvent("Chain") /\ UNCHANGED <<mod, tally>>
         /\ Consume(<< <<"values-of-the-specification-are-found", E.outcome = "ok" /\ RClose(E.v[1], E.b.v[1], "1/10000000") /\ RClose(E.v[2], E.b.v[2], "1/10000000"),
                         <<E.outcome, E.b>> >> >>)
(* what is printed or returned does not change what is computed *)
Same == /\ IsEvent("Same") /\ UNCHANGED <<mod, tally>>
        /\ Consume(<< <<"options-of-display-change-nothing", E.outcome = "ok" /\ E.V = E.V2 /\ E.X = E.X2, <<E.outcome, E.how>> >> >>)
StoppedS == Stopped /\ UNCHANGED <<mod, tally>>
TraceNext == Model \/ Policy \/ Best \/ Chain \/ Same \/ StoppedS
=============================================================================
