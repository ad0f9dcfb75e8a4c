-------------------------------- MODULE Tensor --------------------------------
(***************************************************************************)
(* Arrays of exact numbers (nested sequences), stacks of matrices, and     *)
(* multilinear operations.                                                  *)
(***************************************************************************)
EXTENDS Linear
RECURSIVE SumSeq(_)
SumSeq(s) == IF Len(s) = 1 THEN s[1] ELSE VAdd(s[1], SumSeq(Tail(s)))
IsNumber(z) == z = "nan" \/ ~ (z # <<>> /\ DOMAIN z = 1..Len(z))
(* contraction of the dimension number p (from 0) of T with the first one of  *)
(* C, whose other dimensions take its place; d: number of dimensions of C      *)
RECURSIVE Contract(_, _, _, _)
Contract(T, C, d, p) ==
  IF p > 0 THEN [i \in 1..Len(T) |-> Contract(T[i], C, d, p - 1)]
  ELSE IF d = 1 THEN Force(SumSeq([k \in 1..Len(T) |-> VMul(C[k], T[k])]))
  ELSE [l \in 1..Len(C[1]) |-> Contract(T, [k \in 1..Len(C) |-> C[k][l]], d - 1, 0)]
(* [X1..Xk] |-> T[C1 X1, .., Ck Xk] on the last k dimensions of T             *)
RECURSIVE Compose(_, _, _, _)
Compose(T, nd, Cs, ds) ==
  IF Cs = <<>> THEN T
  ELSE LET k == Len(Cs)
       IN Compose(Contract(T, Cs[k], ds[k], nd - 1), nd - 1, SubSeq(Cs, 1, k - 1), SubSeq(ds, 1, k - 1))
(* A X + B X [C, .., C] + D = 0 with k copies of C                            *)
Sylvester(A, B, C, D, X, k) ==
  LET XC == Compose(X, k + 1, [i \in 1..k |-> C], [i \in 1..k |-> 2])
  IN VAdd(VAdd(Contract(X, Transpose(A), 2, 0), Contract(XC, Transpose(B), 2, 0)), D)
Quadratic(F, G, H, P) == MatAdd(MatAdd(MatMul(F, MatMul(P, P)), MatMul(G, P)), H)
===============================================================================
