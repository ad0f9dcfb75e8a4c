------------------------------- MODULE MC_Tensor -------------------------------
(* Laws of the operations, on small arrays: contraction is the matrix product, *)
(* contractions of different dimensions commute, composition is associative.   *)
EXTENDS Tensor, TLC
VARIABLES a, b, c, u
V == {"-1", "0", "1/2"}
Pair2 == {<<x, y>> : x, y \in V}
Init == a \in Pair2 /\ b \in Pair2 /\ c \in Pair2 /\ u \in {"1", "-2"}
Next == UNCHANGED <<a, b, c, u>>
A == <<a, b>>
B == <<c, <<u, "1">>>>
T == <<<<a, c>>, <<b, <<"1", u>>>>>>          \* 2 x 2 x 2
Mx(M) == MatSub(M, <<<<"0", "0">>, <<"0", "0">>>>)
Ok ==
  /\ Contract(A, B, 2, 1) = MatMul(A, B)
  /\ Contract(A, B, 2, 0) = MatMul(Transpose(B), A)
  /\ Contract(Contract(T, A, 2, 1), B, 2, 2) = Contract(Contract(T, B, 2, 2), A, 2, 1)
  /\ Compose(Compose(T, 3, <<A, B>>, <<2, 2>>), 3, <<B, A>>, <<2, 2>>) = Compose(T, 3, <<MatMul(A, B), MatMul(B, A)>>, <<2, 2>>)
  /\ Compose(T, 3, <<c, a>>, <<1, 1>>) = Contract(Contract(T, c, 1, 1), a, 1, 1)
  /\ LET D == MatNeg(MatAdd(MatMul(A, B), MatMul(B, MatMul(B, A)))) IN Sylvester(A, B, A, D, B, 1) = ZeroMat(2, 2)
  /\ Quadratic(A, MatNeg(MatMul(A, B)), ZeroMat(2, 2), B) = ZeroMat(2, 2)
===============================================================================
