------------------------------ MODULE MC_Linear ------------------------------
(* elimination on all small matrices: A (A^-1 B) = B, refused iff singular      *)
EXTENDS Linear, TLC
VARIABLE a
D == {-1, 0, 2}
Init == a \in [1..4 -> D]
Next == UNCHANGED a
R(k) == ToRat(k)
A == <<<<R(a[1]), R(a[2])>>, <<R(a[3]), R(a[4])>>>>
A3 == <<<<R(a[1]), R(a[2]), "1">>, <<R(a[3]), "1/2", R(a[4])>>, <<"0", R(a[4]), R(a[1])>>>>
Det == a[1] * a[4] - a[2] * a[3]
B == <<<<"1", "2", "-1/3">>, <<"0", "5", "1">>>>
Det3 == RSub(RAdd(RMul(R(a[1]), RSub(RDiv(R(a[1]), "2"), RMul(R(a[4]), R(a[4])))), RMul(R(a[3]), R(a[4]))), RMul(RMul(R(a[2]), R(a[3])), R(a[1])))
Near(X, Y) == RLe(MaxEntry(MatSub(X, Y)), "1/1000000000000000000000")
Ok == /\ (Det = 0) = (Solve(A, B) = <<>>)
      /\ Det # 0 => Near(MatMul(A, Solve(A, B)), B) /\ Near(MatMul(Inverse(A), A), Identity(2))
      /\ REq(Det3, "0") = (Inverse(A3) = <<>>)
      /\ (Inverse(A3) # <<>> => Near(MatMul(A3, Inverse(A3)), Identity(3)))
      /\ Transpose(Transpose(B)) = B
      /\ MatMul(A, MatMul(A, B)) = MatMul(MatMul(A, A), B)
      /\ Contracts(<<<<"1/2", R(a[2])>>, <<"0", "3/4">>>>)
      /\ ~ Contracts(<<<<"3/2", R(a[2])>>, <<"0", "3/4">>>>)
==============================================================================
