---------------------------- MODULE Trace_Process ----------------------------
(* P01: recorded discretizations against Process *)
EXTENDS TraceCore, Process
Tol == "1/100000000"
PTol == "1/1000000000000"
TraceInit == TraceCoreInit

Laws(E) == E.rows     \* laws by node
D == Ev.dis

(* what every discretized process satisfies *)
Consistent(X) ==
  << <<"one-law-per-node", Len(X.rows) = X.n_nodes /\ X.n_nodes >= 1, X.n_nodes>>,
     <<"rows-are-probability-laws", \A i \in 1..Len(X.rows) : IsLaw(X.rows[i], PTol),
        [i \in 1..Len(X.rows) |-> RShow(RSum(W(X.rows[i])))]>>,
     <<"points-have-the-dimension-of-the-process", \A i \in 1..Len(X.rows) : \A j \in 1..Len(X.rows[i]) : Len(X.rows[i][j][2]) = X.d>>,
     <<"iterating-gives-the-positive-atoms", \A i \in 1..Len(X.rows) :
          X.items[i] = SelectSeq(X.rows[i], LAMBDA a : RLt("1/10000000000000000", a[1]))>>,
     <<"nodes-are-the-rows-of-the-grid", X.kind = "iid" \/ (X.nodes = X.node /\ MatClose(X.grid, X.nodes, PTol) /\ Len(X.nodes) = X.n_nodes)>>,
     <<"markov-successors-are-the-nodes", X.kind # "mc" \/ \A i \in 1..Len(X.rows) :
          [j \in 1..Len(X.rows[i]) |-> X.rows[i][j][2]] = X.nodes>> >>

p == Ev.proc
Gauss(mu, S, order) ==
  << <<"gaussian-moments", \A i \in 1..Len(D.rows) : GaussMatches(D.rows[i], mu, S, order, Tol)>> >>
Autoregressive(rho, mu, S) ==
  << <<"ar-conditional-mean", Ev.N = 1 \/ \A i \in 1..Len(D.rows) :
        \A k \in 1..Len(mu) : RClose(Moment(D.rows[i], CondMean(rho, mu, D.nodes[i]), Sds(S), <<k>>), "0", Tol)>>,
     <<"ar-conditional-covariance", Ev.N = 1 \/ \A i \in 1..Len(D.rows) :
        GaussMatches(D.rows[i], CondMean(rho, mu, D.nodes[i]), S, 2, Tol)>>,
     <<"ar-nodes-centered", \A k \in 1..Len(mu) :
        RClose(RDiv(RSub(RSum([i \in 1..Len(D.nodes) |-> D.nodes[i][k]]), RMul(ToRat(Len(D.nodes)), mu[k])), Sd(S, k)), "0", Tol)>>,
     <<"ar-announced-number-of-nodes", Len(D.nodes) = Ev.N ^ Len(mu)>> >>

Chain(q) == [P |-> q.values, Q |-> q.transitions]

Judge ==
  CASE p.type \in {"UNormal", "Normal"} /\ Ev.method = "gauss-hermite" ->
         Gauss(IF p.type = "UNormal" THEN <<p.mu>> ELSE p.mu,
               IF p.type = "UNormal" THEN <<<<RMul(p.sigma, p.sigma)>>>> ELSE p.Sigma, GhOrder(Ev.ns))
         \o << <<"number-of-points", \A i \in 1..Len(D.rows) : Len(D.rows[i]) = Prod(Ev.ns), <<Len(D.rows[1]), Ev.ns>> >> >>
    [] Ev.method = "equiprobable" ->
         << <<"equal-weights", \A i \in 1..Len(D.rows) : Len(D.rows[i]) = Ev.N /\ \A j \in 1..Ev.N : RClose(D.rows[i][j][1], RDiv("1", ToRat(Ev.N)), PTol)>>,
            <<"equiprobable-quantiles", \A i \in 1..Len(D.rows) : \A j \in 1..MinN(Ev.N, Len(D.rows[i])) :
               IF Ev.where = "middle" THEN
                  \* the point is halfway between two consecutive quantiles
                  LET x == D.rows[i][j][2][1] IN RLe(CdfLevel(p, Level(j, Ev.N, "left")), CdfAt(p, x)) /\ RLe(CdfAt(p, x), CdfLevel(p, Level(j, Ev.N, "right")))
                  /\ (p.type = "Uniform" => RClose(Cdf(p, x), Level(j, Ev.N, "median"), Tol))
               ELSE RClose(CdfAt(p, D.rows[i][j][2][1]), CdfLevel(p, Level(j, Ev.N, Ev.where)), Tol)>> >>
    [] p.type \in {"AR1", "VAR1"} ->
         IF p.type = "AR1" THEN Autoregressive(p.rho, <<p.mu>>, <<<<RMul(p.sigma, p.sigma)>>>>)
         ELSE Autoregressive(p.rho, p.mu, p.Sigma)
    [] p.type = "Const" ->
         << <<"constant-law", \A i \in 1..Len(D.rows) : SameLaw(D.rows[i], << <<"1", p.mu>> >>, PTol)>> >>
    [] p.type = "Bern" ->
         << <<"bernouilli-law", \A i \in 1..Len(D.rows) :
               SameLaw(D.rows[i], << <<RSub("1", p.pi), <<"0">>>>, <<p.pi, <<"1">>>> >>, PTol)>> >>
    [] p.type = "Finite" ->
         << <<"finite-law", \A i \in 1..Len(D.rows) :
               SameLaw(D.rows[i], [j \in 1..Len(p.points) |-> <<p.weights[j], p.points[j]>>], PTol)>> >>
    [] p.type = "Chain" ->
         << <<"chain-is-itself", Len(D.rows) = Len(p.values) /\ \A i \in 1..Len(D.rows) :
               Len(D.rows[i]) = Len(p.values) /\ \A j \in 1..Len(p.values) :
                  Near(D.rows[i][j][2], p.values[j], PTol) /\ RClose(D.rows[i][j][1], p.transitions[i][j], PTol)>>,
            <<"chain-nodes", MatClose(D.nodes, p.values, PTol)>> >>

Discretize ==
  /\ IsEvent("Discretize")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"discretizes", FALSE, <<Ev.outcome, p.type>> >> >>
             ELSE Consistent(D) \o Judge
                  \o << <<"discretized-as-requested", D.kind = Ev.to, <<D.kind, Ev.to>> >>,
                        <<"declared-process-is-not-modified", Ev.unchanged>> >>)

(* products: factors are the discretizations of the factors, recorded the    *)
(* same way                                                                  *)
IidLaw(X) == X.rows[1]
ChainOf(X) == [P |-> X.nodes, Q |-> [i \in 1..Len(X.rows) |-> W(X.rows[i])]]
ProductOf ==
  /\ IsEvent("Product")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"product-discretizes", FALSE, Ev.outcome>> >>
             ELSE Consistent(D) \o
             << <<"product-kind", D.kind = Ev.to, <<D.kind, Ev.to>> >>,
                <<"product-law",
                  IF D.kind = "iid"
                  THEN LET L == ProductLaw([k \in 1..Len(Ev.factors) |-> IidLaw(Ev.factors[k])]) IN
                       Len(IidLaw(D)) = Len(L) /\ \A j \in 1..Len(L) :
                          RClose(IidLaw(D)[j][1], L[j][1], PTol) /\ Near(IidLaw(D)[j][2], L[j][2], PTol)
                  ELSE LET T == ProductChain([k \in 1..Len(Ev.factors) |-> ChainOf(Ev.factors[k])]) IN
                       MatClose(D.nodes, T.P, PTol) /\ \A i \in 1..Len(T.P) : AllClose(W(D.rows[i]), T.Q[i], PTol)>> >>)

Mixture ==
  /\ IsEvent("Mixture")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"mixture-discretizes", FALSE, Ev.outcome>> >>
             ELSE Consistent(D) \o
             << <<"mixture-law", \A i \in 1..Len(D.rows) :
                  SameLaw(D.rows[i], MixtureLaw(IidLaw(Ev.index), [k \in 1..Len(Ev.comps) |-> IidLaw(Ev.comps[k])]), PTol)>> >>)

(* chain constructions *)
Rouwenhorst ==
  /\ IsEvent("Rouwenhorst")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"discretizes", FALSE, Ev.outcome>> >>
             ELSE IF Ev.N = 1 THEN << <<"rouwenhorst-one-point", Ev.Z = <<"0">> /\ Ev.Q = << <<"1">> >> >> >>
             ELSE LET nu == RMul(Ev.sigma, RSqrt(RDiv(ToRat(Ev.N - 1), RSub("1", RMul(Ev.rho, Ev.rho))))) IN
             << <<"rouwenhorst-nodes", AllClose([i \in 1..Len(Ev.Z) |-> RDiv(Ev.Z[i], nu)], RouwZ(Ev.N), PTol)>>,
                <<"rouwenhorst-transitions", MatClose(Ev.Q, RouwQ(Ev.N, Ev.rho), PTol)>> >>)
Tauchen ==
  /\ IsEvent("Tauchen")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"discretizes", FALSE, Ev.outcome>> >>
             ELSE << <<"tauchen-nodes", AllClose(Ev.Z, TauchenZ(Ev.N, Ev.mu, Ev.rho, Ev.sigma, Ev.m), PTol)>>,
                     <<"tauchen-transitions", MatClose(Ev.Q, TauchenQ(Ev.N, Ev.mu, Ev.rho, Ev.sigma, Ev.m), PTol)>> >>)
(* product over dimensions of the univariate chain for unit innovations,     *)
(* rotated: the nodes have the covariance of the univariate nodes times Sigma *)
TauchenVar ==
  /\ IsEvent("TauchenVar")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"discretizes", FALSE, Ev.outcome>> >>
             ELSE LET d == Len(Ev.Sigma)
                      Z == TauchenZ(Ev.N, "0", Ev.rho, "1", "2")
                      Q == TauchenQ(Ev.N, "0", Ev.rho, "1", "2")
                      n == [k \in 1..d |-> Ev.N]
                      z2 == RDiv(RDot(Z, Z), ToRat(Ev.N))
                      M == Len(Ev.P)
                  IN << <<"var-number-of-nodes", M = Prod(n) /\ \A i \in 1..M : Len(Ev.P[i]) = d>>,
                        <<"var-node-covariance", (M = Prod(n) /\ \A i \in 1..M : Len(Ev.P[i]) = d) => \A i, j \in 1..d :
                            RClose(RDiv(RDot([k \in 1..M |-> Ev.P[k][i]], [k \in 1..M |-> Ev.P[k][j]]), RMul(ToRat(M), RMul(Sd(Ev.Sigma, i), Sd(Ev.Sigma, j)))),
                                   RMul(z2, Corr(Ev.Sigma)[i][j]), Tol)>>,
                        <<"var-transitions", M = Prod(n) => \A i, j \in 1..M :
                            RClose(Ev.Q[i][j], RProd([k \in 1..d |-> Q[Digits(n, i)[k]][Digits(n, j)[k]]]), PTol)>> >>)
(* an unsupported request is refused rather than answered by another process *)
Refuse ==
  /\ IsEvent("Refuse")
  /\ Consume(<< <<"unsupported-request-is-refused", Ev.outcome # "ok", Ev.what>> >>)

(* integration against a law is its expectation *)
Integrate ==
  /\ IsEvent("Integrate")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"integrates", FALSE, Ev.outcome>> >>
             ELSE << <<"integral-is-the-expectation",
                       LET want == IF Has(Ev, "law") THEN RDot(W(Ev.law), [i \in 1..Len(Ev.law) |-> RPow(Ev.law[i][2][1], ToRat(Ev.power))])
                                   ELSE CASE Ev.power = 1 -> p.mu
                                          [] Ev.power = 2 -> RAdd(RMul(p.mu, p.mu), RMul(p.sigma, p.sigma))
                                          [] Ev.power = 0 -> "1"
                       IN RClose(Ev.value, want, "1/1000000"), <<RShow(Ev.value), Ev.power>> >> >>)

TraceNext == Discretize \/ ProductOf \/ Mixture \/ Rouwenhorst \/ Tauchen \/ TauchenVar \/ Refuse \/ Integrate \/ Stopped
=============================================================================
