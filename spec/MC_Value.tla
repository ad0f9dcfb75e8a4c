-------------------------------- MODULE MC_Value --------------------------------
(* A chain with two states, two actions in each: the value of every policy,      *)
(* policy improvement, and convergence to the best policy.                       *)
(*   R[a][i]: reward of action a in state i; Q[a][i]: probability to be in       *)
(*   state 1 next period.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, Rat, TLC, Json
CONSTANTS Emit
VARIABLES R, Q, b, pol, n
vars == <<R, Q, b, pol, n>>
Init == /\ R \in [1..2 -> [1..2 -> {"0", "1"}]] /\ Q \in [1..2 -> [1..2 -> {"0", "1/4", "1"}]] /\ b \in {"1/2", "3/4"}
        /\ pol \in [1..2 -> 1..2] /\ n = 0
        /\ Emit => (pol = [i \in 1..2 |-> 1] /\ Q[2] = Q[1])
(* the value of a policy: v = r + b (q v1 + (1-q) v2), two linear equations      *)
ValueOf(p) ==
  LET r(i) == R[p[i]][i]  q(i) == Q[p[i]][i]
      a11 == RSub("1", RMul(b, q(1)))  a12 == RNeg(RMul(b, RSub("1", q(1))))
      a21 == RNeg(RMul(b, q(2)))       a22 == RSub("1", RMul(b, RSub("1", q(2))))
      d == RSub(RMul(a11, a22), RMul(a12, a21))
  IN << RDiv(RSub(RMul(a22, r(1)), RMul(a12, r(2))), d), RDiv(RSub(RMul(a11, r(2)), RMul(a21, r(1))), d) >>
Score(a, i, v) == RAdd(R[a][i], RMul(b, RAdd(RMul(Q[a][i], v[1]), RMul(RSub("1", Q[a][i]), v[2]))))
Bellman == LET v == ValueOf(pol) IN \A i \in 1..2 : REq(v[i], Score(pol[i], i, v))
(* discounted sums: v is within b^k / (1 - b) of the sum of the first k rewards  *)
RECURSIVE Sum(_, _)
Sum(k, i) == IF k = 0 THEN "0" ELSE RAdd(R[pol[i]][i], RMul(b, RAdd(RMul(Q[pol[i]][i], Sum(k - 1, 1)), RMul(RSub("1", Q[pol[i]][i]), Sum(k - 1, 2)))))
Discounted == LET v == ValueOf(pol) IN \A i \in 1..2 : RLe(RAbs(RSub(v[i], Sum(4, i))), RDiv(RMul(RMul(b, b), RMul(b, b)), RSub("1", b)))
Best(v, i) == LET c == pol[i] IN IF RLt(Score(c, i, v), Score(3 - c, i, v)) THEN 3 - c ELSE c
Next == /\ ~ Emit /\ LET v == ValueOf(pol) IN pol' = [i \in 1..2 |-> Best(v, i)]
        /\ pol' # pol /\ n' = n + 1 /\ UNCHANGED <<R, Q, b>>
Spec == Init /\ [][Next]_vars
Improves == [][\A i \in 1..2 : RLe(ValueOf(pol)[i], ValueOf(pol')[i])]_vars
Fast == n <= 3
Stuck == (\A i \in 1..2 : Best(ValueOf(pol), i) = pol[i]) =>
           \A p \in [1..2 -> 1..2] : LET w == ValueOf(p) v == ValueOf(pol) IN \A i \in 1..2 : RLe(w[i], v[i])
Chains == Emit => PrintT("@@B " \o ToJson([r |-> R[1], q |-> Q[1], b |-> b, v |-> ValueOf(pol)]))
=============================================================================
