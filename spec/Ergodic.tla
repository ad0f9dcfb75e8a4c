------------------------------- MODULE Ergodic -------------------------------
(***************************************************************************)
(* The chain followed by the nodes of a discretized model, and its         *)
(* invariant law.  A point of the grid moves to g(m,s,x,M) with the        *)
(* probability of M; the point reached is brought back to the grid and     *)
(* shared among its neighbours in such a way that the mean is the point    *)
(* itself: node j gets the product of the hat functions of its coordinates.*)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, Interp, Linear
Clamp(z, a, b) == RMin(RMax(z, a), b)
(* weight of node k of a uniform axis a..b with n points *)
Hat(a, b, n, z, k) ==
  LET h == RDiv(RSub(b, a), ToRat(n - 1))
  IN RMax("0", RSub("1", RDiv(RAbs(RSub(Clamp(z, a, b), Lin(a, b, n, k))), h)))
Axis(g, d, z) == [k \in 1..g.n[d] |-> Hat(g.min[d], g.max[d], g.n[d], z, k)]
RECURSIVE Outer(_)
Outer(ws) == IF ws = <<>> THEN <<"1">>
             ELSE LET r == Outer(Tail(ws)) h == Head(ws) IN Flat([k \in 1..Len(h) |-> VMul(h[k], r)])
Share(g, S) == Outer([d \in 1..Len(S) |-> Axis(g, d, S[d])])     \* last coordinate varies fastest, as the nodes do
RECURSIVE Mix(_, _)
Mix(w, R) == IF w = <<>> THEN "0" ELSE VAdd(VMul(Head(w), Head(R)), Mix(Tail(w), Tail(R)))
Law(row) == (\A k \in 1..Len(row) : RLe("0", row[k])) /\ REq(RSum(row), "1")
(* invariant laws of P: mu P = mu, sum 1.  <<>> when it is not unique.       *)
Invariant(P) ==
  LET n == Len(P) T == Transpose(P)
      A == [i \in 1..n |-> IF i = n THEN [j \in 1..n |-> "1"] ELSE [j \in 1..n |-> RSub(T[i][j], IF i = j THEN "1" ELSE "0")]]
      X == Solve(A, [i \in 1..n |-> <<IF i = n THEN "1" ELSE "0">>])
  IN [i \in 1..Len(X) |-> X[i][1]]
IsInvariant(mu, P, tol) == LET T == Transpose(P) IN \A j \in 1..Len(mu) : RClose(RDot(mu, T[j]), mu[j], tol)
===============================================================================
