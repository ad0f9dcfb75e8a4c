--------------------------- MODULE Trace_Simulation ---------------------------
(* S01: recorded simulations, date by date, against the model (DoloModel),    *)
(* the decision rule (RuleEval) and the law of motion (Simulation).           *)
EXTENDS TraceCore, RuleEval
VARIABLES mod,    \* line of the model
          rule, rval,
          sim,    \* line of the simulation under way
          cur     \* rows of its last date
E == Ev
M == Trace[mod]
S == Trace[sim]
Tol == "1/1000000000"
TraceInit == TraceCoreInit /\ mod = 0 /\ rule = <<>> /\ rval = <<>> /\ sim = 0 /\ cur = <<>>

Model == /\ IsEvent("Model") /\ mod' = l /\ UNCHANGED <<rule, rval, sim, cur>>
         /\ Consume(<< <<"model-is-accepted", E.outcome = "ok", E.outcome>> >>)
Rule == /\ IsEvent("Rule") /\ rule' = E /\ rval' = (IF Has(E, "values") THEN E.values ELSE <<>>) /\ UNCHANGED <<mod, sim, cur>>
        /\ Consume(<< <<"rule-is-built", E.outcome = "ok", E.outcome>> >>)

Names(g) == M.symbols[g]
Aux == MapSeq(M.defs, LAMBDA d : d.name)
Labels == Names("exogenous") \o Names("states") \o Names("controls") \o Aux
Discrete == S.kind = "discrete"
Off == IF Discrete THEN 1 ELSE 0
nm == Len(Names("exogenous"))
ns == Len(Names("states"))
nx == Len(Names("controls"))
mOf(r) == SubSeq(r, Off + 1, Off + nm)
sOf(r) == SubSeq(r, Off + nm + 1, Off + nm + ns)
xOf(r) == SubSeq(r, Off + nm + ns + 1, Off + nm + ns + nx)
aOf(r) == SubSeq(r, Off + nm + ns + nx + 1, Len(r))
Tame(v) == \A k \in 1..Len(v) : RFin(v[k]) /\ RLt(RAbs(v[k]), "1000000")

Start ==
  /\ IsEvent("Sim") /\ sim' = l /\ cur' = <<>> /\ UNCHANGED <<mod, rule, rval>>
  /\ Consume(IF E.outcome # "ok" THEN << <<"simulates", FALSE, <<E.outcome, E.kind, E.how>> >> >> ELSE
       << <<"columns-are-labelled-in-order", E.cols = (IF E.kind = "discrete" THEN <<"_i_m">> ELSE <<>>) \o Labels, E.cols>>,
          <<"dimensions-are-dates-paths-variables", E.dims = <<"T", "N", "V">> /\ E.sizes = <<E.T, E.N, Len(E.cols)>>, E.sizes>>,
          <<"same-seed-same-paths", E.again>>,
          <<"another-seed-other-paths", E.other>>,
          <<"paths-use-different-shocks", E.distinct>>,
          <<"arguments-are-left-alone", E.intact>> >>)

(* the shocks: m of this date given the previous rows *)
ShockOk(n, r) ==
  LET m == mOf(r)
      t == E.t
      pm == IF t > 0 THEN mOf(cur[n]) ELSE <<>>
  IN CASE S.shocks = "driving" -> AllClose(m, S.drive[t + 1][n], "0")
       [] S.shocks = "driving-chain" -> RFin(r[1]) /\ REq(r[1], S.drive[t + 1][n])
       [] S.shocks = "chain" -> t = 0 => REq(r[1], S.i0)
       [] S.shocks = "stay" -> REq(r[1], S.i0)
       [] S.shocks = "atoms" -> \E k \in 1..Len(S.atoms) : AllClose(m, S.atoms[k], Tol)
       [] S.shocks = "recursion" ->     \* deterministic autoregression
            IF t = 0 THEN AllClose(m, S.m0, Tol)
            ELSE AllClose(VSub(m, S.mu), MatVec(S.R, VSub(pm, S.mu)), Tol)
       [] S.shocks = "autoregression" -> t = 0 => AllClose(m, S.m0, Tol)
       [] S.shocks = "impulse" ->
            IF t = 0 THEN AllClose(m, S.mu, Tol)
            ELSE IF t = 1 THEN AllClose(VSub(m, S.mu), S.impulse, Tol)
            ELSE AllClose(VSub(m, S.mu), MatVec(S.R, VSub(pm, S.mu)), Tol)
       [] OTHER -> TRUE
IdxOf(r) == RFloor(r[1])
StateOk(r) == Discrete => /\ RFin(r[1]) /\ RFloor(r[1]) \in 0..(Len(S.V) - 1) /\ REq(r[1], ToRat(IdxOf(r)))
Date ==
  /\ IsEvent("Date") /\ cur' = E.rows /\ UNCHANGED <<mod, rule, rval, sim>>
  /\ Consume(
      IF S.outcome # "ok" THEN <<>> ELSE
      << <<"rows-are-complete", Len(E.rows) = S.N /\ \A n \in 1..Len(E.rows) : Len(E.rows[n]) = Off + Len(Labels)>>,
         <<"dates-in-order", E.t = E.label>>,
         <<"chain-states-exist", \A n \in 1..Len(E.rows) : StateOk(E.rows[n])>> >> \o
      (IF ~ (\A n \in 1..Len(E.rows) : Len(E.rows[n]) = Off + Len(Labels) /\ StateOk(E.rows[n])) THEN <<>> ELSE
      << <<"shocks-follow-their-law", \A n \in 1..Len(E.rows) : ShockOk(n, E.rows[n]), S.shocks>>,
         <<"chain-values-are-those-of-the-state", Discrete => \A n \in 1..Len(E.rows) : AllClose(mOf(E.rows[n]), S.V[IdxOf(E.rows[n]) + 1], "0")>>,
         <<"chain-steps-have-positive-probability", (Discrete /\ E.t > 0 /\ S.shocks = "chain") =>
             \A n \in 1..Len(E.rows) : RLt("0", S.P[IdxOf(cur[n]) + 1][IdxOf(E.rows[n]) + 1])>>,
         <<"starts-in-the-requested-state", E.t = 0 => \A n \in 1..Len(E.rows) : AllClose(sOf(E.rows[n]), S.s0, "0")>>,
         <<"controls-follow-the-rule", \A n \in 1..Len(E.rows) : LET r == E.rows[n] IN
              Tame(sOf(r)) => RuleAgrees(rule, rval, IF Discrete THEN IdxOf(r) ELSE 0, mOf(r), sOf(r), xOf(r), Tol), <<rule.kind, S.kind>> >>,
         <<"states-follow-the-transition", E.t > 0 => \A n \in 1..Len(E.rows) : LET r == E.rows[n] c == cur[n] IN
              (Tame(sOf(c)) /\ Tame(xOf(c))) =>
              AllAgree(sOf(r), MeaningE(M, "transition", <<mOf(c), sOf(c), xOf(c), mOf(r), M.p>>), Tol)>>,
         <<"auxiliaries-are-those-of-the-date", Aux # <<>> => \A n \in 1..Len(E.rows) : LET r == E.rows[n] IN
              (Tame(sOf(r)) /\ Tame(xOf(r))) =>
              AllAgree(aOf(r), MeaningE(M, "auxiliary", <<mOf(r), sOf(r), xOf(r), M.p>>), Tol)>> >>))

(* a behaviour of MC_Simulation, found again by the real code *)
Replayed == /\ IsEvent("Replay") /\ UNCHANGED <<mod, rule, rval, sim, cur>>
            /\ Consume(<< <<"paths-of-the-specification-are-simulated", E.outcome = "ok" /\ Len(E.got) = Len(E.path) /\
                            \A t \in 1..Len(E.got) : RClose(E.got[t].s, ToRat(E.path[t].s), Tol) /\ RClose(E.got[t].x, ToRat(E.path[t].x), Tol), E.outcome>> >>)

(* rule along one state *)
Tabulate ==
  /\ IsEvent("Tabulate") /\ UNCHANGED <<mod, rule, rval, sim, cur>>
  /\ Consume(IF E.outcome # "ok" THEN << <<"tabulates", FALSE, <<E.outcome, rule.kind>> >> >> ELSE
      << <<"tabulated-columns-are-labelled-in-order", E.cols = Labels, E.cols>>,
         <<"tabulated-rows", Len(E.rows) = E.n /\ \A k \in 1..Len(E.rows) : Len(E.rows[k]) = Len(Labels)>> >> \o
      (IF ~ (Len(E.rows) = E.n /\ \A k \in 1..Len(E.rows) : Len(E.rows[k]) = Len(Labels)) THEN <<>> ELSE
       LET m(r) == SubSeq(r, 1, nm) s(r) == SubSeq(r, nm + 1, nm + ns) x(r) == SubSeq(r, nm + ns + 1, nm + ns + nx) a(r) == SubSeq(r, nm + ns + nx + 1, Len(r)) IN
      << <<"tabulated-state-spans-the-bounds", \A k \in 1..E.n : AllClose(s(E.rows[k]), [j \in 1..ns |-> IF j = E.state THEN Lin(E.lo, E.hi, E.n, k) ELSE E.s0[j]], Tol)>>,
         <<"tabulated-shock", \E c \in 1..Len(E.cands) : \A k \in 1..E.n : AllClose(m(E.rows[k]), E.cands[c].m, Tol)>>,
         <<"tabulated-controls-follow-the-rule", \E c \in 1..Len(E.cands) :
              \A k \in 1..E.n : LET r == E.rows[k] IN AllClose(m(r), E.cands[c].m, Tol) /\ RuleAgrees(rule, rval, E.cands[c].i, m(r), s(r), x(r), Tol)>>,
         <<"table-leaves-its-arguments-alone", E.intact>>,
         <<"tabulated-auxiliaries", Aux # <<>> => \A k \in 1..E.n : LET r == E.rows[k] IN
              Tame(x(r)) => AllAgree(a(r), MeaningE(M, "auxiliary", <<m(r), s(r), x(r), M.p>>), Tol)>> >>))

(* rule along two states: one cell per pair of values *)
Cell2(i, j) == [k \in 1..ns |-> IF k = E.states[1] THEN Lin(E.dom[1][1], E.dom[1][2], E.n[1], i)
                               ELSE IF k = E.states[2] THEN Lin(E.dom[2][1], E.dom[2][2], E.n[2], j) ELSE E.s0[k]]
Table2D ==
  /\ IsEvent("Table2D") /\ UNCHANGED <<mod, rule, rval, sim, cur>>
  /\ Consume(IF E.outcome # "ok" THEN << <<"tabulates-two-states", FALSE, <<E.outcome, rule.kind>> >> >> ELSE
      << <<"two-way-table-is-labelled", /\ E.dims = <<Names("states")[E.states[1]], Names("states")[E.states[2]], "V">>
                                       /\ E.labels = Names("states") \o Names("controls"), <<E.dims, E.labels>> >>,
         <<"two-way-table-has-one-cell-per-pair", E.sizes = <<E.n[1], E.n[2], ns + nx>>, E.sizes>>,
         <<"table-leaves-its-arguments-alone", E.intact>> >> \o
      (IF E.sizes # <<E.n[1], E.n[2], ns + nx>> THEN <<>> ELSE
      << <<"two-way-table-spans-the-domain", \A k \in 1..2 : \A i \in 1..E.n[k] : Len(E.axes[k]) = E.n[k] /\ RClose(E.axes[k][i], Lin(E.dom[k][1], E.dom[k][2], E.n[k], i), Tol)>>,
         <<"two-way-table-states", \A i \in 1..E.n[1] : \A j \in 1..E.n[2] : AllClose(SubSeq(E.cells[i][j], 1, ns), Cell2(i, j), Tol)>>,
         <<"two-way-table-follows-the-rule", \A i \in 1..E.n[1] : \A j \in 1..E.n[2] :
              RuleAgrees(rule, rval, E.i, E.m, Cell2(i, j), SubSeq(E.cells[i][j], ns + 1, ns + nx), Tol)>> >>))

StoppedS == Stopped /\ UNCHANGED <<mod, rule, rval, sim, cur>>
TraceNext == Model \/ Rule \/ Start \/ Date \/ Replayed \/ Tabulate \/ Table2D \/ StoppedS
=============================================================================
