-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* Random paths.                                                           *)
(*                                                                         *)
(* A Markov chain over 1..n is a state machine: from state i it may step   *)
(* to any j with Q[i][j] > 0.  The probability of a path from a given      *)
(* start is the product of its steps.  Samplers are judged by their        *)
(* support (exactly) and by their frequencies (with a bound no correct     *)
(* sampler exceeds but with negligible probability).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat, Process

CanStep(Q, i, j) == RLt("0", Q[i][j])
LegalPath(Q, p) == \A t \in 1..(Len(p) - 1) : CanStep(Q, p[t], p[t + 1])
RECURSIVE PathProb(_, _)
PathProb(Q, p) == IF Len(p) <= 1 THEN "1" ELSE RMul(Q[p[1]][p[2]], PathProb(Q, Tail(p)))
Paths(n, T) == [1..T -> 1..n]

(* inverse-cdf sampling: the state chosen by u in [0,1)                    *)
Cum(row, j) == RSum(SubSeq(row, 1, j))
Total(row) == RSum(row)
Pick(row, u) == LET J == {j \in 1..Len(row) : RLt(u, RDiv(Cum(row, j), Total(row)))}
                IN IF J = {} THEN Len(row) + 1 ELSE CHOOSE j \in J : \A k \in J : j <= k
(* ... without normalization: leaves the states when a row sums to less     *)
(* than one by roundoff                                                     *)
PickRaw(row, u) == LET J == {j \in 1..Len(row) : RLt(u, Cum(row, j))}
                   IN IF J = {} THEN Len(row) + 1 ELSE CHOOSE j \in J : \A k \in J : j <= k

Sq(x) == RMul(x, x)
(* c successes out of n with probability p: within 7 deviations (+14)       *)
Frequent(c, n, p) ==
  IF RLe(p, "0") THEN c = 0 ELSE IF RLe("1", p) THEN c = n ELSE
  RLe(Sq(RSub(ToRat(c), RMul(ToRat(n), p))), RAdd("200", RMul("49", RMul(ToRat(n), RMul(p, RSub("1", p))))))
(* mean of n standardized draws *)
SmallMean(m, n) == RLe(RMul(ToRat(n), Sq(m)), "49")
(* second moment of n standardized draws with (at most) gaussian tails      *)
CloseCorr(c, r, n) == RLe(RMul(ToRat(n), Sq(RSub(c, r))), "98")
SampleMean(x) == RDiv(RSum(x), ToRat(Len(x)))
SampleProd(x, y) == RDiv(RDot(x, y), ToRat(Len(x)))
(* X : columns, each a sequence of draws; mu, S: mean and covariance        *)
Std(X, mu, S) == Force([k \in 1..Len(X) |-> VFix(VDiv(VSub(X[k], mu[k]), Sd(S, k)))])
Drop1(s) == SubSeq(s, 2, Len(s))
Front1(s) == SubSeq(s, 1, Len(s) - 1)
SampleMatches(Z, S) ==
  LET R == Corr(S)
      n == Len(Z[1])
  IN /\ \A k \in 1..Len(Z) : IF REq(S[k][k], "0") THEN \A t \in 1..n : RClose(Z[k][t], "0", "1/1000000")
                             ELSE SmallMean(SampleMean(Z[k]), n)
     /\ \A i \in 1..Len(Z) : \A j \in 1..i : CloseCorr(SampleProd(Z[i], Z[j]), R[i][j], n)
SampleIndependent(Z) == \A i, j \in 1..Len(Z) : CloseCorr(SampleProd(Drop1(Z[i]), Front1(Z[j])), "0", Len(Z[1]) - 1)

(* autoregressive recursion: the innovations of a path given as columns     *)
(* X[k][t], in deviation from mu                                             *)
Innov(rho, mu, X) ==
  LET D == Force([k \in 1..Len(mu) |-> VSub(X[k], mu[k])])
      RECURSIVE Pred(_, _)
      Pred(k, j) == IF j = 0 THEN [t \in 1..(Len(X[1]) - 1) |-> "0"]
                    ELSE VAdd(VMul(rho[k][j], Front1(D[j])), Pred(k, j - 1))
  IN  Force([k \in 1..Len(mu) |-> VSub(Drop1(D[k]), Pred(k, Len(mu)))])
=============================================================================
