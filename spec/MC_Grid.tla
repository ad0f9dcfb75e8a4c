------------------------------- MODULE MC_Grid -------------------------------
(* Row-major numbering is a bijection between 1..Prod(n) and digit tuples,   *)
(* consecutive points differ first in the last dimension, and the listed     *)
(* nodes are exactly the points of the product, each once.                   *)
EXTENDS Grid
CONSTANTS D, S
VARIABLES n, i
SizesUpTo == UNION {[1..d -> 1..S] : d \in 1..D}
Init == n \in SizesUpTo /\ i \in 1..Prod(n)
Next == UNCHANGED <<n, i>>
Tuples(s) == {t \in [1..Len(s) -> 1..S] : \A k \in 1..Len(s) : t[k] <= s[k]}
Bijection == /\ Digits(n, i) \in Tuples(n)
             /\ Number(n, Digits(n, i)) = i
             /\ Cardinality(Tuples(n)) = Prod(n)
             /\ \A t \in Tuples(n) : Number(n, t) \in 1..Prod(n) /\ Digits(n, Number(n, t)) = t
LastFastest == (i < Prod(n)) =>
   LET a == Digits(n, i)  b == Digits(n, i + 1)  L == Len(n)
   IN IF a[L] < n[L] THEN b = [a EXCEPT ![L] = @ + 1] ELSE b[L] = 1
Listed == LET lists == [k \in 1..Len(n) |-> [j \in 1..n[k] |-> ToRat(10 * k + j)]]
              N == ProductNodes(lists)
          IN /\ Len(N) = Prod(n)
             /\ Cardinality({N[j] : j \in 1..Len(N)}) = Prod(n)
             /\ N[i] = [k \in 1..Len(n) |-> lists[k][Digits(n, i)[k]]]
Regular == LET U == UniformNodes([k \in 1..Len(n) |-> "-1"], [k \in 1..Len(n) |-> "2"], n)
           IN /\ \A k \in 1..Len(n) : REq(U[1][k], "-1")
              /\ \A k \in 1..Len(n) : n[k] > 1 => REq(U[Len(U)][k], "2")
=============================================================================
