--------------------------------- MODULE NCP ---------------------------------
(***************************************************************************)
(* Square systems F(x) = 0 and box-constrained complementarity problems    *)
(*     lb <= x <= ub,  F = 0 inside, F >= 0 at lb, F <= 0 at ub.            *)
(* F is polynomial: F_i = A_i x + B_i + C_i x_i^3 + D_i x_i^2.              *)
(***************************************************************************)
EXTENDS Linear
Power3(v) == RMul(v, RMul(v, v))
Value(P, x) == [i \in 1..Len(x) |-> RAdd(RAdd(RDot(P.A[i], x), P.B[i]), RAdd(RMul(P.C[i], Power3(x[i])), RMul(P.D[i], RMul(x[i], x[i]))))]
JacobianOf(P, x) == [i \in 1..Len(x) |-> [j \in 1..Len(x) |->
   IF i = j THEN RAdd(P.A[i][j], RAdd(RMul("3", RMul(P.C[i], RMul(x[i], x[i]))), RMul("2", RMul(P.D[i], x[i])))) ELSE P.A[i][j]]]
Natural(f, lb, ub, x) == RMax(RMin(f, RSub(x, lb)), RSub(x, ub))     \* zero iff the condition holds
Solves(P, lb, ub, x, tol) ==
  LET f == Force(Value(P, x)) IN \A i \in 1..Len(x) : RFin(x[i]) /\ RLe(RAbs(Natural(f[i], lb[i], ub[i], x[i])), tol)
(* Linear problems (C = D = 0): a solution sets each x_i to its lower bound,  *)
(* its upper bound, or solves the i-th equation.                              *)
Choices(n) == [1..n -> {"lb", "ub", "in"}]
Pinned(P, lb, ub, ch) ==
  LET n == Len(lb)
      A == [i \in 1..n |-> IF ch[i] = "in" THEN P.A[i] ELSE [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
      b == [i \in 1..n |-> <<IF ch[i] = "in" THEN RNeg(P.B[i]) ELSE IF ch[i] = "lb" THEN lb[i] ELSE ub[i]>>]
      ok == \A i \in 1..n : ch[i] = "lb" => RFin(lb[i])
      ok2 == \A i \in 1..n : ch[i] = "ub" => RFin(ub[i])
      X == IF ok /\ ok2 THEN Solve(A, b) ELSE <<>>
  IN IF X = <<>> THEN <<>> ELSE Col(X, 1)
Solutions(P, lb, ub) == {x \in {Pinned(P, lb, ub, ch) : ch \in Choices(Len(lb))} : x # <<>> /\ Solves(P, lb, ub, x, "0")}
(* all principal minors positive: exactly one solution (P-matrix)             *)
Det2(A) == RSub(RMul(A[1][1], A[2][2]), RMul(A[1][2], A[2][1]))
PMatrix(A) == CASE Len(A) = 1 -> RLt("0", A[1][1])
                [] Len(A) = 2 -> RLt("0", A[1][1]) /\ RLt("0", A[2][2]) /\ RLt("0", Det2(A))
                [] OTHER -> FALSE
===============================================================================
