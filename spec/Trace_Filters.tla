---------------------------- MODULE Trace_Filters ----------------------------
(* H01: recorded outputs of the filters, against their definitions. *)
EXTENDS TraceCore, Filters
E == Ev
TraceInit == TraceCoreInit
(* E.rows: the series, one per row; E.T, E.C: what is returned, one per row   *)
Solves(y, T, lam) == LET g == Force(Gradient(T, y, lam)) sc == RMul(RAdd("1", RMul("16", lam)), RMax("1", RMax(SupVec(T), SupVec(y))))
                     IN \A i \in 1..Len(y) : RLe(RAbs(g[i]), RMul("1/10000000000000", sc))
Exact(y, T, lam) == Len(y) > 9 \/ LET e == Force(Trend(y, lam)) sc == RMax("1", SupVec(y)) IN \A i \in 1..Len(y) : RLe(RAbs(RSub(T[i], e[i])), RMul(sc, "1/100000000"))
Shaped(X) == Len(X) = Len(E.rows) /\ \A i \in 1..Len(X) : Len(X[i]) = Len(E.rows[i])
Hp == /\ IsEvent("HP")
  /\ Consume(
      IF E.refuse THEN << <<"unsupported-request-is-refused", E.outcome # "ok", E.how>> >>
      ELSE IF E.outcome # "ok" THEN << <<"series-are-filtered", E.short, <<E.outcome, E.how>> >> >>
      ELSE << <<"one-trend-and-one-cycle-per-series", Shaped(E.T) /\ Shaped(E.C) /\ E.shape = E.inshape, <<E.shape, E.how>> >>, <<"arguments-are-left-unchanged", E.unchanged, E.how>> >> \o
        (IF ~ (Shaped(E.T) /\ Shaped(E.C)) THEN <<>> ELSE
         << <<"trend-and-cycle-add-up", \A i \in 1..Len(E.rows) : \A t \in 1..Len(E.rows[i]) : RLe(RAbs(RSub(RAdd(E.T[i][t], E.C[i][t]), E.rows[i][t])), RMul("1/1000000000000", RMax("1", RAdd(RAbs(E.T[i][t]), RAbs(E.rows[i][t]))))), E.how>>,
            <<"trend-solves-the-minimization", \A i \in 1..Len(E.rows) : Solves(E.rows[i], E.T[i], E.lam), E.how>>,
            <<"trend-is-the-minimizer", \A i \in 1..Len(E.rows) : Exact(E.rows[i], E.T[i], E.lam), E.how>> >>))
Bp == /\ IsEvent("BandPass")
  /\ Consume(
      IF Len(E.y) < 2 * E.k + 1 THEN << <<"too-short-series-are-refused", E.outcome # "ok", E.how>> >>
      ELSE IF E.outcome # "ok" THEN << <<"series-are-filtered", FALSE, <<E.outcome, E.how>> >> >>
      ELSE << <<"observations-lost-at-the-ends", Len(E.value) = Len(E.y) - 2 * E.k, <<Len(E.value), E.how>> >>,
              <<"arguments-are-left-unchanged", E.unchanged, E.how>>,
              <<"weighted-moving-average", LET w == Force(Pass(E.y, Force(Weights(E.k, E.w1, E.w2)))) sc == RMax("1", SupVec(E.y)) IN
                  Len(w) = Len(E.value) /\ \A t \in 1..Len(w) : RLe(RAbs(RSub(E.value[t], w[t])), RMul(sc, "1/100000000000")), E.how>> >>)
Replayed == /\ IsEvent("Replay")
  /\ Consume(<< <<"trends-of-the-specification-are-found", E.outcome = "ok" /\ Len(E.value) = Len(E.b.T) /\ \A i \in 1..Len(E.value) : RLe(RAbs(RSub(E.value[i], E.b.T[i])), "1/1000000000"), <<E.outcome, E.b>> >> >>)
TraceNext == Hp \/ Bp \/ Replayed \/ Stopped
==============================================================================
