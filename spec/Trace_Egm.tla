-------------------------------- MODULE Trace_Egm --------------------------------
(* T03: recorded runs of the method of endogenous gridpoints.                       *)
EXTENDS TraceCore, Egm
VARIABLES mod, tally
E == Ev
M == Trace[mod]
TraceInit == TraceCoreInit /\ mod = 0 /\ tally = <<0, 0>>
Model == /\ IsEvent("Model") /\ mod' = l /\ UNCHANGED tally
         /\ Consume(<< <<"model-is-accepted", E.outcome = "ok", E.outcome>> >>)
First(j, m, s) == RRound(RuleValue(E.first, E.X0, j, m, s)[1])
Steps == E.iterations + 1
T == Tables(M, E.nodes, E.atoms, E.a, E.iid, First, Steps)
AllSorted(t) == \A k \in 1..Len(t) : \A i \in 1..Len(t[k]) : Sorted(t[k][i])
At(p) == UniformNode(E.min, E.max, E.n, p.n + 1)
OnCurve(p, tab) == RClose(p.x, Followed(M, E.nodes, tab, IF E.iid THEN 1 ELSE p.i + 1, At(p)), "1/10000000")
(* distances between successive tables: D[k] after k + 1 steps *)
Truthful(D) ==
  << <<"stops-at-the-first-small-change", \A k \in 2..(Len(D) - 1) : RLe(RMul(E.tol, "999999/1000000"), D[k])>>,
     <<"convergence-is-truthful", E.converged => (D # <<>> /\ RLe(D[Len(D)], RMul(E.tol, "1000001/1000000")))>>,
     <<"convergence-is-truthful", (Len(D) >= 2 /\ RLt(D[Len(D)], RMul(E.tol, "999999/1000000"))) => E.converged>>,
     <<"reports-the-change", Len(D) >= 2 => RLe(RAbs(RSub(E.err, D[Len(D)])), RAdd("1/10000000000", RMul("1/100000", D[Len(D)])))>> >>
Judge(t) ==
  IF ~ AllSorted(t) THEN <<>> ELSE
  Truthful([k \in 1..(Len(t) - 1) |-> Distance(t[k + 1], t[k])]) \o
  (IF Steps < 2 THEN <<>> ELSE
   [k \in 1..Len(E.points) |->
     <<"rule-is-that-of-the-endogenous-gridpoints",
       OnCurve(E.points[k], t[Steps]) \/ (E.converged /\ OnCurve(E.points[k], t[Steps - 1])), <<E.how, E.points[k].i, E.points[k].n>> >>])
Solve ==
  /\ IsEvent("Solve") /\ UNCHANGED mod
  /\ tally' = (IF E.outcome = "ok" /\ E.maxit >= 30 THEN <<tally[1] + 1, tally[2] + (IF E.converged THEN 0 ELSE 1)>> ELSE tally)
  /\ Consume(IF E.outcome # "ok" THEN << <<"solves", FALSE, <<E.outcome, E.how>> >> >> ELSE
      << <<"never-exceeds-the-limit", Steps <= E.maxit>>,
         <<"stops-below-tolerance-or-at-the-limit", E.converged \/ Steps = E.maxit>>,
         <<"reports-the-tolerance", REq(E.rtol, E.tol)>>,
         <<"arguments-are-left-unchanged", E.intact>>,
         <<"contractions-are-solved", tally'[1] >= 4 => 2 * tally'[2] <= tally'[1], tally'>> >> \o
      (IF Steps > 30 THEN <<>> ELSE Judge(Force(T))))
Refuse == /\ IsEvent("Refuse") /\ UNCHANGED <<mod, tally>>
          /\ Consume(<< <<"unsupported-request-is-refused", E.outcome # "ok", E.what>> >>)
(* a behaviour of MC_Egm followed by the real code *)
Saved == /\ IsEvent("Saved") /\ UNCHANGED <<mod, tally>>
         /\ Consume(<< <<"rules-of-the-specification-are-found", E.outcome = "ok" /\ \A k \in 1..Len(E.x) :
                          RClose(E.x[k].x, RAdd(RMul(E.b.K[E.x[k].i], E.x[k].w), E.b.D[E.x[k].i]), "1/1000000000"), <<E.outcome, E.b>> >> >>)
StoppedS == Stopped /\ UNCHANGED <<mod, tally>>
TraceNext == Model \/ Solve \/ Refuse \/ Saved \/ StoppedS
=============================================================================
