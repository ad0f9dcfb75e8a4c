----------------------------- MODULE Trace_Model -----------------------------
(* M01, M02: model objects against Calibration and ModelCache.  The trace   *)
(* interleaves operations on several objects; each has its own state.       *)
EXTENDS TraceCore, Calibration
VARIABLES at,                       \* object -> line of its import
          data, cache, result       \* the state of ModelCache
tvars == <<at, data, cache, result>>

Tol == "1/1000000000"
AllViews == {"calibration", "domain", "exogenous", "residuals", "functions"}

ViewOf(M, v, d) ==
  LET sol == Solve(M, d) IN
  CASE v = "calibration" -> [n \in Declared(M) |-> sol[n]]
    [] v = "domain"      -> DomainOf(M, sol)
    [] v = "exogenous"   -> ExogenousOf(M, sol)
    [] v = "residuals"   -> ResidualsOf(M, sol)
    [] v = "functions"   -> Meaning(M, "transition", CalibArgs(M, sol, "transition"))

(* an object is identified by its name and the line of its import *)
TheView(o, v, d) == ViewOf(Trace[o[2]], v, d)
Obj == <<Ev.obj, at[Ev.obj]>>
C == INSTANCE ModelCache WITH Views <- AllViews, Stale <- {}, View <- TheView

TraceInit == TraceCoreInit /\ at = <<>> /\ C!MCInit

(* JSON objects arrive as records; make sure of a function for the empty one *)
Fn(r) == [n \in DOMAIN r |-> r[n]]

Import ==
  /\ IsEvent("Import")
  /\ LET d == Fn(Ev.calib)
         ok == Solvable(Ev, d)
     IN /\ C!Import(<<Ev.obj, l>>, d)
        /\ at' = (Ev.obj :> l) @@ at
        /\ Consume(<< <<"solvable-model-is-accepted", ok => Ev.outcome = "ok", Ev.outcome>>,
                      <<"unsolvable-calibration-is-refused", ~ ok => Ev.outcome # "ok">> >>)

Set ==
  /\ IsEvent("Set")
  /\ C!SetCalibration(Obj, Fn(Ev.entries))
  /\ UNCHANGED at
  /\ Consume(<< <<"set-calibration-accepts", Ev.outcome = "ok", Ev.outcome>> >>)

Matches(v, got, exp, M) ==
  CASE v = "calibration" ->
         << <<"calibration-lists-the-declared-symbols", DOMAIN got.flat = Declared(M)>>,
            <<"calibration-value", DOMAIN got.flat = Declared(M) =>
                \A n \in Declared(M) : CloseN(got.flat[n], exp[n], Tol),
                {<<n, RShow(got.flat[n]), RShow(exp[n])>> : n \in {x \in DOMAIN got.flat \cap Declared(M) : ~ CloseN(got.flat[x], exp[x], Tol)}} >>,
            <<"grouped-view-agrees", \A g \in DOMAIN got.grouped :
                got.grouped[g] = [i \in 1..Len(got.order[g]) |-> IF got.order[g][i] \in DOMAIN got.flat THEN got.flat[got.order[g][i]] ELSE "?"]>>,
            <<"groups-in-declaration-order", \A g \in DOMAIN M.symbols : Len(M.symbols[g]) > 0 =>
                g \in DOMAIN got.order /\ got.order[g] = M.symbols[g]>>,
            <<"symbol-lookup-agrees", \A n \in DOMAIN got.lookup : n \in DOMAIN got.flat /\ got.lookup[n] = got.flat[n]>>,
            <<"tuple-lookup-agrees", got.tuple_ok>>,
            <<"grouped-arrays-are-read-only", got.readonly>> >>
    [] v = "domain" ->
         << <<"domain-dimensions-are-the-states", got.names = M.symbols.states, got.names>>,
            <<"domain-value", Len(got.min) = Len(exp) /\ Len(got.max) = Len(exp) /\
                 \A i \in 1..Len(exp) : CloseN(got.min[i], exp[i][1], Tol) /\ CloseN(got.max[i], exp[i][2], Tol)>>,
            <<"grid-spans-the-domain", got.grid => Len(got.gmin) = Len(exp) /\ Len(got.gmax) = Len(exp) /\
                 \A i \in 1..Len(exp) : RClose(got.gmin[i], exp[i][1], Tol) /\ RClose(got.gmax[i], exp[i][2], Tol)>> >>
    [] v = "exogenous" ->
         << <<"exogenous-value", Len(got) = Len(exp) /\
                 \A i \in 1..Len(exp) : Len(got[i]) = Len(exp[i]) /\
                    \A k \in 1..Len(exp[i]) : Len(got[i][k]) = Len(exp[i][k]) /\
                       \A r \in 1..Len(exp[i][k]) : AllCloseN(got[i][k][r], exp[i][k][r], Tol), <<got, exp>> >> >>
    [] v = "residuals" ->
         << <<"residuals-value", AllCloseN(got.transition, exp.transition, Tol) /\ AllCloseN(got.arbitrage, exp.arbitrage, Tol)>> >>
    [] v = "functions" -> << <<"function-value-at-calibration", AllCloseN(got, exp, Tol)>> >>

Read ==
  /\ IsEvent("Read")
  /\ C!Read(Obj, Ev.view)
  /\ UNCHANGED at
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"read-returns", FALSE, <<Ev.view, Ev.outcome>> >> >>
             ELSE Matches(Ev.view, Ev.got, result'[3], Trace[at[Ev.obj]]))

TraceNext == Import \/ Set \/ Read \/ (Stopped /\ UNCHANGED tvars)
=============================================================================
