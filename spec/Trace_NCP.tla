------------------------------ MODULE Trace_NCP ------------------------------
(* N01: recorded runs of the nonlinear and complementarity solvers.            *)
EXTENDS TraceCore, NCP
VARIABLES tally, last    \* tally: problems known to be well posed, of which not solved
E == Ev
TraceInit == TraceCoreInit /\ tally = <<0, 0>> /\ last = 0
Inf(n) == [i \in 1..n |-> "inf"]
(* E.P: one problem per point of the stack; E.lb, E.ub likewise, <<>> when    *)
(* the system has no bounds; E.claims: the solver did not announce a failure  *)
Lo(k) == IF E.lb = <<>> THEN MapSeq(E.x[k], LAMBDA z : "-inf") ELSE E.lb[k]
Up(k) == IF E.ub = <<>> THEN MapSeq(E.x[k], LAMBDA z : "inf") ELSE E.ub[k]
N == Len(E.P)
AllSolved(tol) == \A k \in 1..N : Solves(E.P[k], Lo(k), Up(k), E.x[k], tol)
Slack == RAdd(RMul(E.factor, E.tol), "1/100000000000")
Run ==
  /\ IsEvent("Run") /\ last' = l
  /\ tally' = (IF E.posed THEN <<tally[1] + 1, tally[2] + (IF E.outcome = "ok" /\ E.claims THEN 0 ELSE 1)>> ELSE tally)
  /\ Consume(
       (IF E.outcome # "ok" THEN << <<"failure-is-reported", TRUE>> >>
        ELSE << <<"result-has-the-shape-of-the-guess", Len(E.x) = N /\ \A k \in 1..N : Len(E.x[k]) = Len(E.P[k].B)>>,
                <<"claimed-solutions-are-solutions", E.claims => AllSolved(Slack), <<E.how, E.x>> >>,
                <<"iteration-limit-is-respected", E.nit = -1 \/ E.nit <= E.maxit, <<E.nit, E.maxit>> >>,
                <<"solutions-are-claimed", (~ E.claims /\ E.always) => ~ AllSolved(RMul(E.tol, "1/10")), <<E.how, E.x>> >> >>) \o
       << <<"arguments-are-left-unchanged", E.unchanged, E.how>>,
          <<"well-posed-problems-are-solved", tally'[1] >= 10 => 10 * tally'[2] <= tally'[1], tally'>> >>)
(* the same problems, one at a time or with another representation of the     *)
(* Jacobian; they have one solution                                           *)
Same ==
  /\ IsEvent("Same") /\ UNCHANGED <<tally, last>>
  /\ Consume(<< <<"each-problem-gets-its-own-solution", (E.claims /\ Trace[last].claims) => MatClose(E.x, Trace[last].x, "1/10000"), E.how>> >>)
Problem ==
  /\ IsEvent("Problem") /\ UNCHANGED <<tally, last>>
  /\ Consume(<< <<"problems-of-the-specification-are-solved", E.outcome = "ok" /\ E.claims /\ AllClose(E.x, E.b.x, "1/10000"), <<E.how, E.outcome, E.b>> >> >>)
(* numerical differentiation *)
Differentiated ==
  /\ IsEvent("Diff") /\ UNCHANGED <<tally, last>>
  /\ Consume(IF E.outcome # "ok" THEN << <<"numerical-jacobian", FALSE, E.outcome>> >> ELSE
      << <<"value-is-returned-too", \A k \in 1..N : AllClose(E.v[k], Value(E.P[k], E.x[k]), "1/10000000000")>>,
         <<"numerical-jacobian", Len(E.J) = N /\ \A k \in 1..N : MatClose(E.J[k], JacobianOf(E.P[k], E.x[k]), "1/100000")>>,
         <<"arguments-are-left-unchanged", E.unchanged>> >>)
StoppedS == Stopped /\ UNCHANGED <<tally, last>>
TraceNext == Run \/ Same \/ Problem \/ Differentiated \/ StoppedS
===============================================================================
