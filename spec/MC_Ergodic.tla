----------------------------- MODULE MC_Ergodic -----------------------------
(* s' = c + r s + b z' on a grid of n points over [0,1], z a chain of two     *)
(* states.  Sharing keeps mass and mean; the chain on the grid has a unique   *)
(* invariant law, or several.  Emit: they are found again by the code.        *)
EXTENDS Ergodic, TLC, Json
CONSTANT Emit
VARIABLES n, c, r, b, p, q
Init == /\ n \in {2, 3, 4} /\ c \in {"-1/4", "1/8", "1/2"} /\ r \in {"0", "1/2", "1", "-1/2"} /\ b \in {"1/8", "1/4", "1"}
        /\ p \in {"1/4", "1"} /\ q \in {"1/2", "1", "0"}
Next == UNCHANGED <<n, c, r, b, p, q>>
G == [min |-> <<"0">>, max |-> <<"1">>, n |-> <<n>>]
Z == <<"-1", "1">>
Q == <<<<p, RSub("1", p)>>, <<q, RSub("1", q)>>>>
To(k, j) == RAdd(c, RAdd(RMul(r, Lin("0", "1", n, k)), RMul(b, Z[j])))
P == [row \in 1..(2 * n) |-> LET i == ((row - 1) \div n) + 1 k == ((row - 1) % n) + 1
        IN Flat([j \in 1..2 |-> VMul(Q[i][j], Share(G, <<To(k, j)>>))])]
Mean(w) == RDot(w, [k \in 1..n |-> Lin("0", "1", n, k)])
Keeps == /\ \A k \in 1..n : \A j \in 1..2 : LET w == Share(G, <<To(k, j)>>) IN Law(w) /\ REq(Mean(w), Clamp(To(k, j), "0", "1"))
         /\ \A i \in 1..(2 * n) : Law(P[i])
PP == Force(P)
Mu == Invariant(PP)
Unique == Mu # <<>> =>
  /\ REq(RSum(Mu), "1") /\ (\A k \in 1..Len(Mu) : RLe("-1/1000000000000", Mu[k])) /\ IsInvariant(Mu, PP, "1/1000000000000")
  \* the law of the shock is the invariant law of its own chain
  /\ LET z1 == RSum(SubSeq(Mu, 1, n)) IN RClose(z1, RAdd(RMul(z1, p), RMul(RSub("1", z1), q)), "1/1000000000000")
(* two-dimensional sharing is the product *)
G2 == [min |-> <<"0", "-1">>, max |-> <<"1", "1">>, n |-> <<n, 2>>]
Product == LET w == Share(G2, <<To(1, 1), c>>) IN Law(w) /\ Len(w) = 2 * n
Laws == Emit => PrintT("@@B " \o ToJson([n |-> n, c |-> c, r |-> r, b |-> b, p |-> p, q |-> q, P |-> P, mu |-> Mu]))
==============================================================================
