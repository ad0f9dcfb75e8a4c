-------------------------------- MODULE Linear --------------------------------
(* Matrices of exact numbers: sequences of rows.                                *)
EXTENDS Integers, Sequences, Rat
Rows(A) == Len(A)
Cols(A) == IF A = <<>> THEN 0 ELSE Len(A[1])
Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
Transpose(A) == [j \in 1..Cols(A) |-> Col(A, j)]
RoundVec(v) == [i \in 1..Len(v) |-> RRound(v[i])]
RoundMat(A) == [i \in 1..Len(A) |-> RoundVec(A[i])]
MatMul(A, B) == LET T == Force(Transpose(B)) IN [i \in 1..Len(A) |-> [j \in 1..Len(T) |-> RRound(RDot(A[i], T[j]))]]
MatVec(A, v) == [i \in 1..Len(A) |-> RRound(RDot(A[i], v))]
MatAdd(A, B) == RoundMat(VAdd(A, B))
MatSub(A, B) == RoundMat(VSub(A, B))
MatNeg(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RNeg(A[i][j])]]
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
ZeroMat(n, k) == [i \in 1..n |-> [j \in 1..k |-> "0"]]
Beside(A, B) == [i \in 1..Len(A) |-> A[i] \o B[i]]
Above(A, B) == A \o B
RECURSIVE SupVec(_)
SupVec(v) == IF v = <<>> THEN "0" ELSE RMax(RAbs(Head(v)), SupVec(Tail(v)))
SupNorm(A) == LET r == [i \in 1..Len(A) |-> RSum([j \in 1..Len(A[i]) |-> RAbs(A[i][j])])] IN SupVec(r)   \* norm of the operator on sup-normed vectors
MaxEntry(A) == SupVec([i \in 1..Len(A) |-> SupVec(A[i])])

(* Gauss-Jordan elimination of [A | B] with the largest pivot; nan when the   *)
(* matrix is singular                                                          *)
RECURSIVE Eliminate(_, _)
Eliminate(R, k) ==
  IF k > Len(R) THEN R
  ELSE LET p == CHOOSE i \in k..Len(R) : \A j \in k..Len(R) : RLe(RAbs(R[j][k]), RAbs(R[i][k]))
       IN IF REq(R[p][k], "0") THEN <<>>
          ELSE LET S == [R EXCEPT ![k] = R[p], ![p] = R[k]]
                   piv == Force(RoundVec(VDiv(S[k], S[k][k])))
               IN Eliminate(Force([i \in 1..Len(S) |-> IF i = k THEN piv ELSE RoundVec(VSub(S[i], VMul(S[i][k], piv)))]), k + 1)
Solve(A, B) ==       \* X such that A X = B; <<>> when A is singular
  LET R == Eliminate(Force(Beside(A, B)), 1)
  IN [i \in 1..Len(R) |-> SubSeq(R[i], Len(A) + 1, Len(A) + Cols(B))]
Inverse(A) == Solve(A, Identity(Len(A)))
RECURSIVE Square(_, _)
Square(A, k) == IF k = 0 THEN A ELSE Square(Force(MatMul(A, A)), k - 1)     \* A^(2^k)
Contracts(A) == A = <<>> \/ RLt(SupNorm(Square(A, 8)), "1")                  \* all roots inside the unit circle (not too close to it)
===============================================================================
