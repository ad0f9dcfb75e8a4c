----------------------------- MODULE Trace_Chain -----------------------------
(* P02: recorded simulations, draws and responses against Chain *)
EXTENDS TraceCore, Chain
TraceInit == TraceCoreInit
Tol == "1/1000000000"
E == Ev

(* paths: N sequences of T states, 1-based *)
Simulate ==
  /\ IsEvent("Simulate")
  /\ Consume(IF E.outcome # "ok" THEN << <<"simulates", FALSE, E.outcome>> >> ELSE
      LET n == Len(E.Q) IN
      << <<"simulation-has-the-requested-shape", Len(E.paths) = E.N /\ \A p \in 1..Len(E.paths) : Len(E.paths[p]) = E.T>>,
         <<"starts-in-the-requested-state", \A p \in 1..Len(E.paths) : E.paths[p][1] = E.start[p]>>,
         <<"states-exist", \A p \in 1..Len(E.paths) : \A t \in 1..E.T : E.paths[p][t] \in 1..n>>,
         <<"steps-have-positive-probability", \A p \in 1..Len(E.paths) :
             (\A t \in 1..E.T : E.paths[p][t] \in 1..n) => LegalPath(E.Q, E.paths[p])>>,
         <<"values-are-the-values-of-the-states", \A v \in 1..Len(E.values) : \A t \in 1..E.T :
             E.paths[v][t] \in 1..n => E.values[v][t] = E.V[E.paths[v][t]]>>,
         <<"same-seed-same-paths", E.again>> >>)

(* how often each path occurred: one record per distinct path *)
Frequencies ==
  /\ IsEvent("Frequencies")
  /\ Consume(IF E.outcome # "ok" THEN << <<"simulates", FALSE, E.outcome>> >> ELSE
      LET n == Len(E.Q)
          cnt(p) == IF \E i \in 1..Len(E.counts) : E.counts[i].path = p THEN (CHOOSE c \in {E.counts[i] : i \in 1..Len(E.counts)} : c.path = p).n ELSE 0
      IN << <<"only-paths-of-the-chain", \A i \in 1..Len(E.counts) : E.counts[i].path \in Paths(n, E.T) /\ LegalPath(E.Q, E.counts[i].path)>>,
            <<"path-frequencies-are-path-probabilities",
              \A p \in Paths(n, E.T) : p[1] = E.start => Frequent(cnt(p), E.N, PathProb(E.Q, p))>> >>)

(* deterministic: the chain stays where it is *)
Stays ==
  /\ IsEvent("Stays")
  /\ Consume(<< <<"deterministic-chain-stays", E.outcome = "ok" /\ E.shape = <<E.T, E.N, Len(E.V[1])>> /\ \A i \in 1..Len(E.values) : E.values[i] = E.V[E.start], E.outcome>> >>)

p == E.proc
RhoMat(q) == IF q.type = "AR1" THEN <<<<q.rho>>>> ELSE q.R
MuVec(q) == IF q.type = "AR1" THEN <<q.mu>> ELSE q.mu
Cov(q) == IF q.type = "AR1" THEN <<<<RMul(q.sigma, q.sigma)>>>> ELSE q.Sigma
(* paths[n][k][t]: component k at date t of path n *)
AllInnov(q, paths) == Force([i \in 1..Len(paths) |-> Innov(RhoMat(q), MuVec(q), paths[i])])
Autoreg ==
  /\ IsEvent("Autoreg")
  /\ Consume(IF E.outcome # "ok" THEN << <<"simulates", FALSE, <<E.outcome, p.type>> >> >> ELSE
      LET d == Len(MuVec(p))
          I == AllInnov(p, E.paths)
          X == Force([k \in 1..d |-> Flat([i \in 1..Len(I) |-> I[i][k]])])
          Z == Std(X, [k \in 1..d |-> "0"], Cov(p))
      IN << <<"simulation-has-the-requested-shape", Len(E.paths) = E.N /\ \A i \in 1..Len(E.paths) : Len(E.paths[i]) = d /\ \A k \in 1..d : Len(E.paths[i][k]) = E.T>>,
            <<"starts-in-the-requested-state", \A i \in 1..Len(E.paths) : Near([k \in 1..d |-> E.paths[i][k][1]], E.start, Tol)>>,
            <<"same-seed-same-paths", E.again>> >> \o
         IF E.stochastic
         THEN << <<"innovations-have-the-declared-covariance", SampleMatches(Z, Cov(p)), p>>,
                 <<"innovations-are-independent-over-time", SampleIndependent(Z)>>,
                 <<"paths-are-different", (\E k \in 1..d : ~ REq(Cov(p)[k][k], "0")) => \A i \in 2..Len(E.paths) : E.paths[i] # E.paths[i - 1]>> >>
         ELSE << <<"deterministic-recursion", \A k \in 1..d : \A t \in 1..Len(X[k]) : RClose(X[k][t], "0", Tol)>> >>)

(* rows 0..T; the impulse arrives at date 1 *)
Response ==
  /\ IsEvent("Response")
  /\ Consume(IF E.outcome # "ok" THEN << <<"responds", FALSE, <<E.outcome, p.type>> >> >> ELSE
      LET auto == p.type \in {"AR1", "VAR1"}
          d == Len(E.impulse)
          mu == IF auto THEN MuVec(p) ELSE [k \in 1..d |-> "0"]
          rho == IF auto THEN RhoMat(p) ELSE [i \in 1..d |-> [j \in 1..d |-> "0"]]
      IN << <<"response-has-the-requested-length", Len(E.irf) = E.T + 1>>,
            <<"response-starts-at-rest", Near(E.irf[1], mu, Tol)>>,
            <<"impulse-at-date-one", Near([k \in 1..d |-> RSub(E.irf[2][k], mu[k])], E.impulse, Tol)>>,
            <<"response-follows-the-recursion", E.T < 2 \/
                LET e == Innov(rho, mu, [k \in 1..d |-> [t \in 1..(Len(E.irf) - 1) |-> E.irf[t + 1][k]]])
                IN \A k \in 1..d : \A t \in 1..Len(e[k]) : RClose(e[k][t], "0", Tol)>>,
            <<"response-is-labelled", E.names = E.want>> >>)

(* draws of a law; columns of draws *)
Count2(x, c) == VCountLe(x, c)
MixCdf(q, x) == RSum([i \in 1..Len(q.weights) |-> RMul(q.weights[i], Cdf(q.comps[i], x))])
Draws ==
  /\ IsEvent("Draws")
  /\ Consume(IF E.outcome # "ok" THEN << <<"draws", FALSE, <<E.outcome, p.type>> >> >> ELSE
      LET X == E.cols
          n == E.N
          d == Len(X)
      IN << <<"draws-have-the-requested-shape", d = E.d /\ \A k \in 1..d : Len(X[k]) = n>>,
            <<"same-seed-same-draws", E.again>> >> \o
       CASE p.type \in {"UNormal", "Normal"} ->
              LET S == IF p.type = "UNormal" THEN <<<<RMul(p.sigma, p.sigma)>>>> ELSE p.Sigma
                  mu == IF p.type = "UNormal" THEN <<p.mu>> ELSE p.mu
                  Z == Std(X, mu, S)
              IN << <<"draws-have-the-declared-moments", SampleMatches(Z, S), p>>, <<"draws-are-independent", SampleIndependent(Z)>> >>
                 \o (IF p.type = "UNormal" THEN << <<"draws-have-the-declared-distribution",
                        \A c \in {"-1", "0", "1/2", "2"} : Frequent(Count2(Z[1], c), n, RNormCdf(c))>> >> ELSE <<>>)
         [] p.type = "Uniform" ->
              << <<"draws-have-the-declared-distribution", \A c \in {"0", "1/10", "1/2", "4/5", "1"} :
                     Frequent(Count2(X[1], RAdd(RAdd(p.a, RMul(c, RSub(p.b, p.a))), IF c = "1" THEN "1/1000" ELSE IF c = "0" THEN "-1/1000" ELSE "0")), n, c)>>,
                 <<"draws-are-independent", SampleIndependent(Std(X, <<RDiv(RAdd(p.a, p.b), "2")>>, <<<<Sq(RSub(p.b, p.a))>>>>))>> >>
         [] p.type = "Mix" ->
              << <<"draws-have-the-declared-distribution", \A c \in {"-1", "-1/4", "1/4", "3/4", "3/2"} :
                     Frequent(Count2(X[1], c), n, MixCdf(p, c))>> >>
         [] p.type = "Const" -> << <<"draws-of-a-constant", \A k \in 1..d : \A t \in 1..n : RClose(X[k][t], p.mu[k], "1/100000")>> >>
         [] OTHER ->    \* discrete: counts by atom
              LET A == IF p.type = "Bern" THEN << <<RSub("1", p.pi), <<"0">>>>, <<p.pi, <<"1">>>> >>
                       ELSE [j \in 1..Len(p.points) |-> <<p.weights[j], p.points[j]>>]
                  here(a) == Cardinality({t \in 1..n : \A k \in 1..d : REq(X[k][t], a[k])})
              IN << <<"draws-are-atoms", \A t \in 1..n : \E j \in 1..Len(A) : RLt("0", A[j][1]) /\ \A k \in 1..d : REq(X[k][t], A[j][2][k])>>,
                    <<"draws-have-the-declared-distribution", \A j \in 1..Len(A) : Frequent(here(A[j][2]), n, MassAt(A, A[j][2], Tol))>> >>)

(* the shape of a result does not depend on how few draws are asked for      *)
Small ==
  /\ IsEvent("Small")
  /\ Consume([k \in 1..Len(E.calls) |-> LET c == E.calls[k] IN
       <<"small-samples-keep-their-shape", c.outcome = "ok" /\ c.shape = c.want /\ c.finite, <<p.type, c.what, c.outcome, c.shape, c.want>> >>])

(* each block of columns of a product is a simulation of its factor: here    *)
(* gaussian and autoregressive factors, jointly independent                  *)
ProductSim ==
  /\ IsEvent("ProductSim")
  /\ Consume(IF E.outcome # "ok" THEN << <<"simulates", FALSE, E.outcome>> >> ELSE
      LET inn(k) == LET f == E.factors[k] IN
                    IF f.type = "AR1" THEN Flat([i \in 1..Len(E.paths) |-> VDiv(Innov(<<<<f.rho>>>>, <<f.mu>>, <<E.paths[i][k]>>)[1], f.sigma)])
                    ELSE Flat([i \in 1..Len(E.paths) |-> VDiv(VSub(Drop1(E.paths[i][k]), f.mu), f.sigma)])
          Z == Force([k \in 1..Len(E.factors) |-> VFix(inn(k))])
          d == Len(E.factors)
      IN << <<"simulation-has-the-requested-shape", E.shape = <<E.T, E.N, d>> >>,
            <<"product-of-independent-simulations", SampleMatches(Z, [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN "1" ELSE "0"]])>> >>)

TraceNext == Simulate \/ Frequencies \/ Stays \/ Autoreg \/ Response \/ Draws \/ Small \/ ProductSim \/ Stopped
=============================================================================
