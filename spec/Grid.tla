--------------------------------- MODULE Grid ---------------------------------
(***************************************************************************)
(* Grids.  Points of a product are numbered in row-major order: the last    *)
(* dimension varies fastest (indices are 1-based here).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat

RECURSIVE Prod(_)
Prod(n) == IF n = <<>> THEN 1 ELSE Head(n) * Prod(Tail(n))

(* digits (1-based) of point i in a product of sizes n *)
Digits(n, i) == [k \in 1..Len(n) |-> (((i - 1) \div Prod(SubSeq(n, k + 1, Len(n)))) % n[k]) + 1]
(* number of the point with these digits *)
RECURSIVE Number(_, _)
Number(n, d) == IF n = <<>> THEN 1
                ELSE (Head(d) - 1) * Prod(Tail(n)) + Number(Tail(n), Tail(d))

(* k-th of n equidistant points from a to b *)
Lin(a, b, n, k) == IF n = 1 THEN a
                   ELSE RAdd(a, RMul(RSub(b, a), RDiv(ToRat(k - 1), ToRat(n - 1))))

UniformNode(min, max, n, i) ==
  LET d == Digits(n, i) IN [k \in 1..Len(n) |-> Lin(min[k], max[k], n[k], d[k])]
UniformNodes(min, max, n) == [i \in 1..Prod(n) |-> UniformNode(min, max, n, i)]

Sizes(lists) == [k \in 1..Len(lists) |-> Len(lists[k])]
ProductNodes(lists) ==
  [i \in 1..Prod(Sizes(lists)) |->
     LET d == Digits(Sizes(lists), i) IN [k \in 1..Len(lists) |-> lists[k][d[k]]]]

ColMin(nodes, k) == LET S == {i \in 1..Len(nodes) : \A j \in 1..Len(nodes) : RLe(nodes[i][k], nodes[j][k])}
                    IN nodes[CHOOSE i \in S : TRUE][k]
ColMax(nodes, k) == LET S == {i \in 1..Len(nodes) : \A j \in 1..Len(nodes) : RLe(nodes[j][k], nodes[i][k])}
                    IN nodes[CHOOSE i \in S : TRUE][k]

(* number of points of the Smolyak grid of dimension d and level mu:        *)
(* level vectors k with k_1+..+k_d <= mu add 1, 2, 2, 4, 8, ... points      *)
(* per dimension                                                            *)
NewPts(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE 2 ^ (k - 1)
RECURSIVE SmolyakCount(_, _)
SmolyakCount(d, mu) ==
  IF d = 0 THEN 1
  ELSE LET RECURSIVE S(_)
           S(k) == IF k > mu THEN 0 ELSE NewPts(k) * SmolyakCount(d - 1, mu - k) + S(k + 1)
       IN S(0)
=============================================================================
