----------------------------- MODULE Trace_Ergodic -----------------------------
(* E01: recorded ergodic distributions, against the model, the rule and the law. *)
EXTENDS TraceCore, RuleEval, Ergodic
VARIABLES mod, rule
E == Ev
M == Trace[mod]
Tol == "1/1000000000"
TraceInit == TraceCoreInit /\ mod = 0 /\ rule = <<>>
Model == /\ IsEvent("Model") /\ mod' = l /\ UNCHANGED rule
         /\ Consume(<< <<"model-is-accepted", E.outcome = "ok", E.outcome>> >>)
Rule == /\ IsEvent("Rule") /\ rule' = E /\ UNCHANGED mod
        /\ Consume(<< <<"rule-is-built", E.outcome = "ok", E.outcome>> >>)
Ns == Prod(E.endo.n)
Node(k) == UniformNode(E.endo.min, E.endo.max, E.endo.n, k)
(* block of the matrix from exogenous node i and state node k, given next     *)
(* period's exogenous value *)
Next1(i, k, at) == LET s == Node(k) x == RuleValue(rule, rule.values, i - 1, E.nodes[i], s)
                   IN Meaning(M, "transition", <<E.nodes[i], s, x, at.m, M.p>>)
ExpectedRow(i, k) ==
  IF E.iid THEN Mix([a \in 1..Len(E.atoms[i]) |-> E.atoms[i][a].w], [a \in 1..Len(E.atoms[i]) |-> Share(E.endo, Next1(i, k, E.atoms[i][a]))])
  ELSE Flat([a \in 1..Len(E.atoms[i]) |-> VMul(E.atoms[i][a].w, Share(E.endo, Next1(i, k, E.atoms[i][a])))])
Nm == Len(E.nodes)
Rows2 == E.P
WellShaped == E.shape = (IF E.iid THEN <<Ns, Ns>> ELSE <<Nm, Ns, Nm, Ns>>) /\ Len(E.P) = Nm * Ns /\ \A r \in 1..Len(E.P) : Len(E.P[r]) = Nm * Ns
Dist ==
  /\ IsEvent("Ergodic") /\ UNCHANGED <<mod, rule>>
  /\ Consume(
      IF E.refuse THEN << <<"unsupported-request-is-refused", E.outcome # "ok", E.how>> >>
      ELSE IF E.outcome # "ok" THEN << <<"distribution-is-computed", E.several, <<E.outcome, E.how>> >> >>
      ELSE << <<"one-row-per-point", WellShaped, E.shape>>, <<"arguments-are-left-unchanged", E.unchanged>> >> \o
      (IF ~ WellShaped THEN <<>> ELSE
       << <<"rows-are-probability-laws", \A r \in 1..Len(E.P) : RClose(RSum(E.P[r]), "1", Tol) /\ \A j \in 1..Len(E.P[r]) : RLe("-1/1000000000000", E.P[r][j]), E.how>>,
          <<"rows-follow-the-model-and-its-rule", \A i \in 1..Nm : \A k \in 1..Ns :
               LET e == Force(ExpectedRow(i, k)) g == E.P[(i - 1) * Ns + k] IN \A j \in 1..Len(g) : RClose(g[j], e[j], Tol), E.how>> >> \o
       (IF ~ E.law THEN <<>> ELSE
        << <<"law-is-labelled-by-the-grid", E.dims = (IF E.iid THEN <<>> ELSE <<"i_m">>) \o M.symbols.states
               /\ E.mushape = (IF E.iid THEN <<>> ELSE <<Nm>>) \o E.endo.n
               /\ \A d \in 1..Len(E.endo.n) : Len(E.coords[d]) = E.endo.n[d] /\ \A k \in 1..E.endo.n[d] : RClose(E.coords[d][k], Lin(E.endo.min[d], E.endo.max[d], E.endo.n[d], k), Tol), E.dims>>,
           <<"law-is-a-probability-law", RClose(RSum(E.mu), "1", Tol) /\ \A k \in 1..Len(E.mu) : RLe("-1/100000000", E.mu[k]), E.how>>,
           <<"law-is-invariant", IsInvariant(E.mu, E.P, "1/100000000"), E.how>> >>)))
(* the systems enumerated by MC_Ergodic *)
Replayed ==
  /\ IsEvent("Replay") /\ UNCHANGED <<mod, rule>>
  /\ Consume(IF E.outcome # "ok" THEN << <<"laws-of-the-specification-are-found", E.b.mu = <<>>, E.outcome>> >>
       ELSE << <<"chains-of-the-specification-are-built", Len(E.P) = Len(E.b.P) /\ \A i \in 1..Len(E.P) : \A j \in 1..Len(E.P) : RClose(E.P[i][j], E.b.P[i][j], Tol)>>,
               <<"laws-of-the-specification-are-found", IF E.b.mu # <<>> THEN \A k \in 1..Len(E.mu) : RClose(E.mu[k], E.b.mu[k], Tol)
                    ELSE RClose(RSum(E.mu), "1", Tol) /\ IsInvariant(E.mu, E.b.P, "1/100000000") /\ \A k \in 1..Len(E.mu) : RLe("-1/100000000", E.mu[k]), <<E.b.n, E.b.c, E.b.r, E.b.b, E.b.p, E.b.q>> >> >>)
TraceNext == Model \/ Rule \/ Dist \/ Replayed \/ (Stopped /\ UNCHANGED <<mod, rule>>)
===============================================================================
