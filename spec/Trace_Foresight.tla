---------------------------- MODULE Trace_Foresight ----------------------------
(* F01: recorded perfect foresight simulations.                                  *)
EXTENDS TraceCore, Foresight
VARIABLES mod, tally
E == Ev
M == Trace[mod]
Tol == "1/1000000000"
TraceInit == TraceCoreInit /\ mod = 0 /\ tally = <<0, 0>>
Model == /\ IsEvent("Model") /\ mod' = l /\ UNCHANGED tally
         /\ Consume(<< <<"model-is-accepted", E.outcome = "ok", E.outcome>> >>)
Aux == MapSeq(M.defs, LAMBDA d : d.name)
Columns == M.symbols.states \o M.symbols.controls \o Aux \o M.symbols.exogenous
ns == Len(M.symbols.states)
nx == Len(M.symbols.controls)
na == Len(M.defs)
Row(r) == [s |-> SubSeq(r, 1, ns), x |-> SubSeq(r, ns + 1, ns + nx), y |-> SubSeq(r, ns + nx + 1, ns + nx + na), m |-> SubSeq(r, ns + nx + na + 1, Len(r))]
First == IF E.keep THEN 2 ELSE 1
R(t) == Row(E.rows[First + t])            \* date t
Want == ShocksOf(E.series, E.calib, E.T)
Small == RAdd(RMul("10", E.tol), "1/1000000000000")
Lb == IF E.bounded THEN Meaning(M, "arbitrage_lb", <<R(0).m, R(0).s, E.p>>) ELSE [k \in 1..nx |-> "-inf"]
Ub == IF E.bounded THEN Meaning(M, "arbitrage_ub", <<R(0).m, R(0).s, E.p>>) ELSE [k \in 1..nx |-> "inf"]
Shaped == Len(E.rows) = E.T + First /\ \A t \in 1..Len(E.rows) : Len(E.rows[t]) = Len(Columns)
Proper(e) == IF e.keep THEN Tail(e.rows) ELSE e.rows
Solved ==
  /\ IsEvent("Path") /\ UNCHANGED mod
  /\ tally' = (IF E.expect = "path" THEN <<tally[1] + 1, tally[2] + (IF E.outcome = "ok" /\ E.claims THEN 0 ELSE 1)>> ELSE tally)
  /\ Consume(
      (IF E.outcome # "ok" THEN << <<"varying-bounds-are-refused", TRUE>>, <<"failure-is-reported", TRUE>> >> ELSE
       << <<"columns-and-dates", E.columns = Columns /\ E.index = [k \in 1..Len(E.rows) |-> k - First] /\ Shaped, <<E.columns, E.index>> >>,
          <<"arguments-are-left-unchanged", E.unchanged>> >> \o
       (IF ~ Shaped THEN <<>> ELSE
        LET lb == Force(Lb) ub == Force(Ub) IN
        << <<"shocks-are-those-asked", \A t \in 0..E.T : AllClose(R(t).m, Want[t + 1], "0"), E.how>>,
           <<"starts-in-the-initial-state", E.s0 # <<>> => AllClose(R(0).s, E.s0, IF E.exact THEN Small ELSE "1/100000000"), <<E.how, R(0).s, E.s0>> >>,
           <<"initial-state-is-steady-for-the-first-shock", E.start # <<>> => SteadyOk(M, E.p, [m |-> R(0).m, s |-> E.start[1], x |-> E.start[2]], "1/1000000") /\ AllClose(R(0).s, E.start[1], Small), E.how>>,
           <<"kept-steady-state", E.keep => LET r == Row(E.rows[1]) IN AllClose(r.m, R(0).m, "0") /\ SteadyOk(M, E.p, r, "1/1000000") /\ AllClose(r.s, R(0).s, Small), E.how>>,
           <<"auxiliaries-are-those-of-the-date", \A t \in 1..Len(E.rows) : LET r == Row(E.rows[t]) IN AllAgree(r.y, MeaningE(M, "auxiliary", <<r.m, r.s, r.x, E.p>>), Tol), E.how>>,
           <<"bounds-do-not-vary", E.bounded => \A t \in 1..E.T : /\ AllClose(Meaning(M, "arbitrage_lb", <<R(t).m, R(t).s, E.p>>), lb, "1/10000000")
                                                                /\ AllClose(Meaning(M, "arbitrage_ub", <<R(t).m, R(t).s, E.p>>), ub, "1/10000000"), E.how>> >> \o
        (IF ~ E.claims THEN << <<"failure-is-reported", TRUE>> >> ELSE
         << <<"states-follow-the-transition", \A t \in 1..E.T : NextStateOk(M, E.p, R(t - 1), R(t), Small), E.how>>,
            <<"controls-are-optimal", \A t \in 1..E.T : OptimalOk(M, E.p, lb, ub, R(t - 1), R(t), Small), E.how>>,
            <<"controls-respect-their-bounds", \A t \in 0..E.T : \A k \in 1..nx : RLe(RSub(lb[k], Small), R(t).x[k]) /\ RLe(R(t).x[k], RAdd(ub[k], Small)), E.how>>,
            <<"nothing-changes-at-the-end", \/ AllClose(R(E.T).x, R(E.T - 1).x, Small)
                                             \/ OptimalOk(M, E.p, lb, ub, R(E.T), R(E.T), Small), <<E.how, R(E.T).x, R(E.T - 1).x>> >> >>))) \o
      << <<"well-posed-problems-are-solved", tally'[1] >= 10 => 10 * tally'[2] <= tally'[1], tally'>>,
         <<"same-path-as-before", Has(E, "same") => LET B == Trace[l - E.same] IN
              /\ E.outcome = B.outcome \/ E.how[1] = "guess"
              /\ (E.outcome = "ok" /\ B.outcome = "ok" /\ E.claims /\ B.claims) => MatClose(Proper(E), Proper(B), "1/10000"), <<E.how, E.outcome>> >> >>)
Refused == /\ IsEvent("Varying") /\ UNCHANGED <<mod, tally>>
           /\ Consume(<< <<"varying-bounds-are-refused", E.outcome # "ok", E.how>> >>)
Replayed ==
  /\ IsEvent("Replay") /\ UNCHANGED <<mod, tally>>
  /\ Consume(<< <<"paths-of-the-specification-are-found", E.outcome = "ok" /\ E.claims /\ \E k \in 1..Len(E.b.paths) :
                    AllClose(E.s, E.b.paths[k].s, "1/100000") /\ AllClose(E.x, E.b.paths[k].x, "1/100000"), <<E.outcome, E.b>> >> >>)
TraceNext == Model \/ Solved \/ Refused \/ Replayed \/ (Stopped /\ UNCHANGED <<mod, tally>>)
===============================================================================
