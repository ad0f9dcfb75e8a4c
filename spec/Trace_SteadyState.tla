-------------------------- MODULE Trace_SteadyState --------------------------
(* K01: recorded residuals and steady states.                                   *)
EXTENDS TraceCore, SteadyState
VARIABLE mod
E == Ev
M == Trace[mod]
Tol == "1/1000000000"
TraceInit == TraceCoreInit /\ mod = 0
Model == /\ IsEvent("Model") /\ mod' = l
         /\ Consume(<< <<"model-is-accepted", E.outcome = "ok", E.outcome>> >>)
Reported ==
  /\ IsEvent("Residuals") /\ UNCHANGED mod
  /\ Consume(
       IF E.outcome # "ok" THEN << <<"residuals-are-reported", FALSE, <<E.outcome, E.how>> >> >>
       ELSE LET R == Force(ResidualsE(M, E.m, E.s, E.x, E.p))
            IN << <<"residuals-are-reported", {E.keys[i] : i \in 1..Len(E.keys)} = {"transition", "arbitrage"}, E.keys>>,
                  <<"residuals-of-the-transitions", AllAgree(E.transition, R.transition, Tol), E.how>>,
                  <<"residuals-of-the-optimality-conditions", AllAgree(E.arbitrage, R.arbitrage, Tol), E.how>> >>)
AllSmall(v, tol) == \A i \in 1..Len(v) : RFin(v[i]) /\ RLe(RAbs(v[i]), tol)
Found ==
  /\ IsEvent("Found") /\ UNCHANGED mod
  /\ Consume(
       << <<"nothing-else-is-changed", E.unchanged, E.how>> >> \o
       (IF E.outcome # "ok"
        THEN (IF E.linear THEN << <<"linear-steady-state-is-found", SteadyOfLinear(M, E.m, E.p) = <<>>, <<E.outcome, E.how>> >> >>
              ELSE << <<"failure-is-reported", TRUE>> >>)
        ELSE << <<"residuals-vanish", AllSmall(Residuals(M, E.m, E.s, E.x, E.p), "1/1000000"), <<E.how, E.s, E.x>> >>,
                <<"shocks-are-those-asked", AllClose(E.mf, E.m, "0"), E.how>>,
                <<"parameters-are-those-of-the-model", AllClose(E.pf, E.p, "0"), E.how>>,
                <<"values-are-labelled", E.labelled, E.how>> >> \o
             (IF ~ E.linear THEN <<>>
              ELSE LET Z == Force(SteadyOfLinear(M, E.m, E.p))
                   IN << <<"linear-steady-state-is-found", Z = <<>> \/ AllClose(E.s \o E.x, Z, "1/100000"), <<E.how, E.s, E.x, Z>> >> >>)))
(* a model of MC_SteadyState *)
Model2 ==
  /\ IsEvent("Model2") /\ UNCHANGED mod
  /\ Consume(CASE E.b.class = "none" -> << <<"absence-of-a-steady-state-is-reported", E.outcome # "ok", E.b>> >>
               [] E.b.class = "one" -> << <<"models-of-the-specification-are-solved", E.outcome = "ok" /\ AllClose(E.z, E.b.z, "1/1000000"), <<E.outcome, E.b>> >> >>
               [] OTHER -> << <<"models-of-the-specification-are-solved", E.outcome = "ok" => AllSmall(E.r, "1/1000000"), <<E.outcome, E.b>> >> >>)
(* what the model displays: every equation in order, with its residual to four *)
(* digits, marked when it does not vanish                                      *)
Line(q, i, v) ==
  /\ q.n = i
  /\ Agrees(q.val, v, "51/1000000")
  /\ (v[2] # "inf" /\ RFin(v[1]) /\ RLe(v[2], "1/1000000000000")) => (q.red <=> RLt("1/100000000", RAbs(v[1]))) \/ RClose(RAbs(v[1]), "1/100000000", "1/1000000000")
Lines(L, V) == /\ Len(L) = Len(V) /\ \A i \in 1..Len(L) : Line(L[i], i, V[i])
HLines(L, V) == /\ Len(L) = Len(V) /\ \A i \in 1..Len(L) : Line([n |-> i, val |-> L[i].val, red |-> L[i].red], i, V[i])
Means(b, args, q) == IF b = "arbitrage" /\ q.lhs # <<>> THEN EvalE(M, b, args, <<"sub", q.expr, q.lhs>>, 0) ELSE EvalE(M, b, args, q.expr, 0)
SameMeaning(b, args, L) ==
  LET V == MeaningE(M, b, args)
  IN Len(L) = Len(V) /\ \A i \in 1..Len(L) : LET w == Means(b, args, L[i]) IN (w[1] = "nan" /\ V[i][1] = "nan") \/ V[i][2] = "inf" \/ RClose(w[1], V[i][1], Tol)
Shown ==
  /\ IsEvent("Shown") /\ UNCHANGED mod
  /\ Consume(
       IF E.outcome # "ok" \/ E.outcome2 # "ok" THEN << <<"models-are-displayed", FALSE, <<E.outcome, E.outcome2>> >> >>
       ELSE LET R == Force(ResidualsE(M, E.m, E.s, E.x, E.p)) St == Still(E.m, E.s, E.x, E.p)
                nd == Len(M.defs)
            IN << <<"models-are-displayed", {E.sections[i] : i \in 1..Len(E.sections)} = {"transition", "arbitrage", "definitions"}, E.sections>>,
                  <<"names-and-files-are-those-of-the-model", E.head.name = E.name /\ E.head.file = E.file /\ E.own.name = E.name /\ E.own.file = E.file, <<E.head, E.own, E.name, E.file>> >>,
                  <<"displayed-residuals-are-those-of-the-model", Lines(E.transition, R.transition) /\ Lines(E.arbitrage, R.arbitrage), <<E.transition, E.arbitrage, R>> >>,
                  <<"displayed-residuals-are-those-of-the-model", HLines(E.htransition, R.transition) /\ HLines(E.harbitrage, R.arbitrage), <<E.htransition, E.harbitrage, R>> >>,
                  <<"displayed-equations-are-those-of-the-model", SameMeaning("transition", St.transition, E.transition) /\ SameMeaning("arbitrage", St.arbitrage, E.arbitrage)
                                                                  /\ SameMeaning("auxiliary", <<E.m, E.s, E.x, E.p>>, E.definitions) /\ Len(E.hdefinitions) = nd>> >>)
StoppedS == Stopped /\ UNCHANGED mod
TraceNext == Model \/ Reported \/ Found \/ Model2 \/ Shown \/ StoppedS
===============================================================================
