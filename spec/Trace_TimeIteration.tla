-------------------------- MODULE Trace_TimeIteration --------------------------
(* T01: recorded runs of time iteration, iteration by iteration.               *)
EXTENDS TraceCore, Equilibrium, Iterate
VARIABLES mod, run, V, changes, tried   \* tried: inner problems met, inner problems given up (with a warning)
E == Ev
M == Trace[mod]
R == Trace[run]
keep == UNCHANGED <<mod, run, V, changes, tried>>
TraceInit == TraceCoreInit /\ mod = 0 /\ run = 0 /\ V = <<>> /\ changes = <<>> /\ tried = <<0, 0>>

Model == /\ IsEvent("Model") /\ mod' = l /\ UNCHANGED <<run, V, changes, tried>>
         /\ Consume(<< <<"model-is-accepted", E.outcome = "ok", E.outcome>> >>)
(* a run: R.rule describes the grids, R.nodes/R.atoms the shocks, E.start   *)
(* the values of the initial rule                                           *)
Start == /\ IsEvent("Run") /\ run' = l /\ changes' = <<>> /\ UNCHANGED <<mod, tried>>
         /\ V' = (IF E.outcome = "ok" THEN E.first ELSE <<>>)
         /\ Consume(IF E.outcome # "ok" THEN << <<"solves", FALSE, <<E.outcome, E.how>> >> >> ELSE
              << <<"starts-from-the-given-rule", Flat(Flat(E.first)) # <<>> /\ RLe(Change(E.first, E.start), "1/100000000"), E.how>>,
                 <<"bounds-are-used-unless-ignored", E.complementarities = (M.bounds # <<>> /\ ~ E.ignore)>>,
                 <<"one-trace-per-iteration", E.traced = E.iterations + 1 /\ E.hooked = E.iterations, <<E.traced, E.hooked, E.iterations>> >> >>)
Con == M.bounds # <<>> /\ ~ R.ignore
StepOk(p) ==
  LET m == R.nodes[p.i + 1]
      s == UniformNode(R.rule.min, R.rule.max, R.rule.n, p.n + 1)
      F == Force(Futures(M, m, R.atoms[p.i + 1], s, p.x))
  IN Covered(R.rule, F) => Optimal(M, Con, m, s, p.x, Force(Euler(M, R.rule, V, m, F, s, p.x)), "1/200000")
Iteration ==
  /\ IsEvent("Iteration") /\ V' = E.V /\ changes' = Append(changes, Change(E.V, V)) /\ UNCHANGED <<mod, run>>
  /\ tried' = <<tried[1] + 1, tried[2] + (IF E.warned THEN 1 ELSE 0)>>
  /\ Consume(<< <<"inner-problems-are-solved", tried'[1] > 8 => 4 * tried'[2] <= tried'[1], tried'>> >> \o
       (IF E.warned THEN <<>> ELSE [k \in 1..Len(E.points) |->
          <<"steps-solve-the-optimality-conditions", StepOk(E.points[k]), <<R.how, E.k, E.points[k].i, E.points[k].n>> >>]))
Finish ==
  /\ IsEvent("End") /\ keep
  /\ Consume(<< <<"reports-the-iterations-it-did", R.iterations = Len(changes)>>,
       <<"stops-at-the-first-small-change", \A k \in 1..(Len(changes) - 1) : RLe(R.tol, RAdd(changes[k], "1/100000000000"))>>,
       <<"never-exceeds-the-limit", R.iterations <= R.maxit>>,
       <<"convergence-is-truthful", changes # <<>> => LET e == changes[Len(changes)] IN
            /\ (R.converged => RLe(e, RAdd(R.tol, "1/100000000000")))
            /\ (RLt(e, RSub(R.tol, "1/100000000000")) => R.converged)
            /\ (~ R.converged => R.iterations = R.maxit)>>,
       <<"reported-change-is-the-last-one", changes # <<>> => RClose(R.err, changes[Len(changes)], "1/1000000000")>>,
       <<"reports-the-tolerance", REq(R.xtol, R.tol)>>,
       <<"returns-the-last-rule", RLe(Change(E.final, V), "1/1000000000")>>,
       <<"arguments-are-left-alone", E.intact>> >>)
(* the same run with other reporting options *)
Same == /\ IsEvent("Same") /\ keep
        /\ Consume(<< <<"options-of-display-change-nothing", E.outcome = "ok" /\ (E.outcome = "ok" => RLe(Change(E.final, V), "0")), E.opts>> >>)
(* a behaviour of MC_Iterate, found again by the real code *)
Replayed ==
  /\ IsEvent("Replay") /\ keep
  /\ Consume(<< <<"behaviours-of-the-specification-are-followed", E.outcome = "ok" /\ E.it = E.b.it /\ E.conv = E.b.conv
                    /\ RClose(E.x, E.b.x, "1/1000000") /\ RClose(E.err, E.b.err, "1/1000000"), <<E.outcome, E.b.c, E.b.tol, E.b.maxit>> >> >>)
(* an economy of MC_Equilibrium, solved by the real code *)
Economy ==
  /\ IsEvent("Economy") /\ keep
  /\ Consume(<< <<"economies-of-the-specification-are-solved", E.outcome = "ok" /\ E.conv /\ RClose(E.x, E.b.x, "1/100000") /\ RClose(E.y, E.b.x, "1/100000"),
                 <<E.outcome, E.b.a, E.b.c, E.b.lb, E.b.ub>> >> >>)
StoppedS == Stopped /\ keep
TraceNext == Model \/ Start \/ Iteration \/ Finish \/ Same \/ Replayed \/ Economy \/ StoppedS
=============================================================================
