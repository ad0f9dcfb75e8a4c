------------------------------- MODULE Process -------------------------------
(***************************************************************************)
(* Exogenous processes and their discretizations.                          *)
(*                                                                         *)
(* A law is a sequence of atoms <<weight, point>>.  A discretized process  *)
(* gives one law per node (the law of next period's value).  What a        *)
(* discretization owes to the declared process is stated by moments,       *)
(* quantiles or, for discrete processes, by the law itself.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat, Grid

W(L) == [i \in 1..Len(L) |-> L[i][1]]
Col(L, k) == [i \in 1..Len(L) |-> L[i][2][k]]
IsLaw(L, tol) == /\ Len(L) > 0
                 /\ \A i \in 1..Len(L) : RLe("0", L[i][1])
                 /\ RClose(RSum(W(L)), "1", tol)
Mean(L, k) == RDot(W(L), Col(L, k))
(* E prod_{k in ks} (x_k - mu_k)/s_k *)
RECURSIVE Monomial(_, _, _, _)
Monomial(x, mu, s, ks) == IF ks = <<>> THEN "1"
                          ELSE RMul(RDiv(RSub(x[Head(ks)], mu[Head(ks)]), s[Head(ks)]), Monomial(x, mu, s, Tail(ks)))
Moment(L, mu, s, ks) == RRound(RDot(W(L), [i \in 1..Len(L) |-> RRound(Monomial(L[i][2], mu, s, ks))]))

(* moments of a centered gaussian vector with correlation matrix R *)
GaussMoment(R, ks) ==
  IF Len(ks) \in {1, 3, 5} THEN "0"
  ELSE IF Len(ks) = 0 THEN "1"
  ELSE IF Len(ks) = 2 THEN R[ks[1]][ks[2]]
  ELSE IF Len(ks) = 4 THEN RSum(<<RMul(R[ks[1]][ks[2]], R[ks[3]][ks[4]]),
                                  RMul(R[ks[1]][ks[3]], R[ks[2]][ks[4]]),
                                  RMul(R[ks[1]][ks[4]], R[ks[2]][ks[3]])>>)
  ELSE "15"          \* sixth moment, used in dimension 1 only (R = 1)

Sd(S, k) == IF REq(S[k][k], "0") THEN "1" ELSE RSqrt(S[k][k])
Sds(S) == [k \in 1..Len(S) |-> Sd(S, k)]
Corr(S) == [i \in 1..Len(S) |-> [j \in 1..Len(S) |-> RDiv(S[i][j], RMul(Sd(S, i), Sd(S, j)))]]

Indices(d, n) == [1..n -> 1..d]
(* L has the moments of N(mu, S) up to this order; the directions of zero   *)
(* variance are constant                                                    *)
GaussMatches(L, mu, S, order, tol) ==
  LET s == Sds(S)
      R == Corr(S)
      d == Len(S)
  IN  \A n \in 1..order : \A ks \in Indices(d, n) :
        (\A i \in 1..(n - 1) : ks[i] <= ks[i + 1]) =>
           RClose(Moment(L, mu, s, [i \in 1..n |-> ks[i]]), GaussMoment(R, [i \in 1..n |-> ks[i]]), tol)

(* the order to which gauss-hermite rules with these numbers of points are  *)
(* exact (a polynomial of degree 2N-1), capped                              *)
MinSeq(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m <= s[i]
MinN(a, b) == IF a <= b THEN a ELSE b
GhOrder(ns) == MinN(2 * MinSeq(ns) - 1, IF Len(ns) = 1 THEN 6 ELSE 4)

(* AR(1)/VAR(1) with scalar autocorrelation: x' = mu + rho (x - mu) + eps   *)
CondMean(rho, mu, x) == [k \in 1..Len(mu) |-> RAdd(mu[k], RMul(rho, RSub(x[k], mu[k])))]

(* cumulative distribution functions of the univariate laws *)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
BetaCdf(a, b, x) ==   \* integer parameters
  LET n == a + b - 1 IN
  RSum([i \in 1..b |-> LET k == a + i - 1 IN
        RMul(ToRat(Binom(n, k)), RMul(RPow(x, ToRat(k)), RPow(RSub("1", x), ToRat(n - k))))])
Cdf(p, x) ==
  CASE p.type = "UNormal" -> IF x = "-inf" THEN "0" ELSE IF x = "inf" THEN "1" ELSE RNormCdf(RDiv(RSub(x, p.mu), p.sigma))
    [] p.type = "LogNormal" -> IF RLe(x, "0") THEN "0" ELSE IF x = "inf" THEN "1"
                               ELSE RNormCdf(RDiv(RSub(RLog(x), p.mu), p.sigma))
    [] p.type = "Uniform" -> RMin("1", RMax("0", RDiv(RSub(x, p.a), RSub(p.b, p.a))))
    [] p.type = "Beta" -> BetaCdf(p.a, p.b, x)
(* the probability of a value not above the i-th of N equiprobable points   *)
Level(i, N, where) == CASE where = "median" -> RDiv(ToRat(2 * i - 1), ToRat(2 * N))
                        [] where = "left" -> RDiv(ToRat(i - 1), ToRat(N))
                        [] where = "right" -> RDiv(ToRat(i), ToRat(N))
(* truncation of p to [lb, ub] *)
TruncLevel(p, q) == LET a == Cdf(p.dist, p.lb)
                        b == Cdf(p.dist, p.ub)
                    IN RAdd(a, RMul(q, RSub(b, a)))
CdfLevel(p, q) == IF p.type = "Trunc" THEN TruncLevel(p, q) ELSE q
CdfAt(p, x) == IF p.type = "Trunc" THEN Cdf(p.dist, x) ELSE Cdf(p, x)

(* product of independent laws, in row-major order *)
Concat(s) == LET RECURSIVE C(_)
                 C(k) == IF k = 0 THEN <<>> ELSE C(k - 1) \o s[k]
             IN C(Len(s))
RProd(s) == LET RECURSIVE C(_)
                C(k) == IF k = 0 THEN "1" ELSE RMul(C(k - 1), s[k])
            IN C(Len(s))
ProductLaw(Ls) ==
  LET n == [k \in 1..Len(Ls) |-> Len(Ls[k])] IN
  [i \in 1..Prod(n) |-> LET d == Digits(n, i) IN
     <<RProd([k \in 1..Len(Ls) |-> Ls[k][d[k]][1]]), Concat([k \in 1..Len(Ls) |-> Ls[k][d[k]][2]])>>]
(* a chain is [P |-> values, Q |-> transitions] *)
ProductChain(Cs) ==
  LET n == [k \in 1..Len(Cs) |-> Len(Cs[k].P)] IN
  [P |-> [i \in 1..Prod(n) |-> LET d == Digits(n, i) IN Concat([k \in 1..Len(Cs) |-> Cs[k].P[d[k]]])],
   Q |-> [i \in 1..Prod(n) |-> [j \in 1..Prod(n) |->
            LET d == Digits(n, i) e == Digits(n, j) IN RProd([k \in 1..Len(Cs) |-> Cs[k].Q[d[k]][e[k]]])]]]
ChainLaw(C, i) == [j \in 1..Len(C.P) |-> <<C.Q[i][j], C.P[j]>>]

(* mixture: index law (atoms are integers), component laws by index value   *)
MixtureLaw(I, comp) == Concat([i \in 1..Len(I) |->
   LET L == comp[RFloor(I[i][2][1]) + 1] IN [j \in 1..Len(L) |-> <<RMul(I[i][1], L[j][1]), L[j][2]>>]])
(* equality of laws, whatever the order of the atoms *)
Near(x, y, tol) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : RClose(x[k], y[k], tol)
MassAt(L, x, tol) == RSum([i \in 1..Len(L) |-> IF Near(L[i][2], x, tol) THEN L[i][1] ELSE "0"])
SameLaw(L, K, tol) ==
  /\ \A i \in 1..Len(L) : RClose(MassAt(L, L[i][2], tol), MassAt(K, L[i][2], tol), tol)
  /\ \A i \in 1..Len(K) : RClose(MassAt(L, K[i][2], tol), MassAt(K, K[i][2], tol), tol)

(* Rouwenhorst's chain for an AR(1): N states, symmetric binomial           *)
RECURSIVE RouwQ(_, _)
RouwQ(N, rho) ==
  LET p == RDiv(RAdd("1", rho), "2")
      q == RSub("1", p)
  IN IF N = 2 THEN <<<<p, q>>, <<q, p>>>>
     ELSE LET M == RouwQ(N - 1, rho)
              at(i, j) == IF i \in 1..(N - 1) /\ j \in 1..(N - 1) THEN M[i][j] ELSE "0"
          IN [i \in 1..N |-> [j \in 1..N |->
                LET t == RSum(<<RMul(p, at(i, j)), RMul(q, at(i, j - 1)), RMul(q, at(i - 1, j)), RMul(p, at(i - 1, j - 1))>>)
                IN IF i \in 2..(N - 1) THEN RDiv(t, "2") ELSE t]]
(* nodes, in units of the largest one *)
RouwZ(N) == [i \in 1..N |-> RDiv(ToRat(2 * i - N - 1), ToRat(N - 1))]
(* Tauchen's chain: equidistant nodes up to m unconditional deviations, the *)
(* mass of the gaussian cell around each                                    *)
TauchenZ(N, mu, rho, sigma, m) ==
  LET z == RMul(m, RDiv(sigma, RSqrt(RSub("1", RMul(rho, rho))))) IN
  [i \in 1..N |-> RAdd(mu, RMul(z, RouwZ(N)[i]))]
TauchenQ(N, mu, rho, sigma, m) ==
  LET Z == TauchenZ(N, mu, rho, sigma, m)
      h == RDiv(RSub(Z[2], Z[1]), "2")
      F(i, z) == RNormCdf(RDiv(RSub(z, RAdd(mu, RMul(rho, RSub(Z[i], mu)))), sigma))
  IN [i \in 1..N |-> [j \in 1..N |->
        IF j = 1 THEN F(i, RAdd(Z[1], h))
        ELSE IF j = N THEN RSub("1", F(i, RSub(Z[N], h)))
        ELSE RSub(F(i, RAdd(Z[j], h)), F(i, RSub(Z[j], h)))]]
=============================================================================
