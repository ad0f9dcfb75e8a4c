-------------------------------- MODULE MC_Egm --------------------------------
(* Endogenous gridpoints on linear savings problems with two incomes:             *)
(*   w' = r (w - c) + y',  c = b E c'                                             *)
(* From a linear rule c = K[i] w + D[i], one step gives another linear rule.      *)
(* State: the rule, the number of steps.                                          *)
EXTENDS Integers, Sequences, Rat, TLC, Json
CONSTANTS Emit, Steps, Fault
VARIABLES y, q, b, r, K0, D0, K, D, n
vars == <<y, q, b, r, K0, D0, K, D, n>>
Init == /\ y \in {<<"0", "1">>, <<"1", "1/2">>} /\ q \in {<<"1", "0">>, <<"1/2", "1/4">>, <<"3/4", "1">>} /\ b \in {"1/2", "3/4"} /\ r \in {"1", "3/2"}
        /\ K0 \in {<<"1/2", "1/2">>, <<"1", "1/4">>} /\ D0 \in {<<"0", "0">>, <<"1/4", "1/2">>} /\ n = 0 /\ K = K0 /\ D = D0
(* q[i]: probability of the first income next period; E over next incomes         *)
Mean(i, f(_)) == LET o == IF Fault = "transposed" THEN (IF i = 1 THEN q[1] ELSE RSub("1", q[1])) ELSE q[i]
                 IN RAdd(RMul(o, f(1)), RMul(RSub("1", o), f(2)))
Rule(k, d, i, w) == RAdd(RMul(k[i], w), d[i])
Law(i, f(_)) == RAdd(RMul(q[i], f(1)), RMul(RSub("1", q[i]), f(2)))
(* the control chosen at post-state a, and the state it is reached from           *)
Choice(i, a) == RMul(b, Mean(i, LAMBDA j : Rule(K, D, j, RAdd(RMul(r, a), y[j]))))
Point(i, a) == LET c == Choice(i, a) IN [x |-> c, s |-> IF Fault = "forgets" THEN a ELSE RAdd(a, c)]
Slope(i) == LET p == Point(i, "0") z == Point(i, "1") IN RDiv(RSub(z.x, p.x), RSub(z.s, p.s))
Level(i) == LET p == Point(i, "0") IN RSub(p.x, RMul(Slope(i), p.s))
NewK == <<Slope(1), Slope(2)>>
NewD == <<Level(1), Level(2)>>
Next == n < Steps /\ K' = NewK /\ D' = NewD /\ n' = n + 1 /\ UNCHANGED <<y, q, b, r, K0, D0>>
(* every point lies on the new rule: linear rules are kept                        *)
Linear == \A i \in 1..2 : \A a \in {"-1", "0", "1/2", "3"} : LET p == Point(i, a) IN REq(p.x, Rule(NewK, NewD, i, p.s))
(* the new rule solves the optimality condition, given the previous one, in any state *)
Euler == \A i \in 1..2 : \A w \in {"-1", "0", "2/3", "4"} :
           LET c == Rule(NewK, NewD, i, w)
           IN REq(c, RMul(b, Law(i, LAMBDA j : Rule(K, D, j, RAdd(RMul(r, RSub(w, c)), y[j])))))
(* slopes stay in (0, 1): states increase with post-states                        *)
Increasing == n > 0 => \A i \in 1..2 : RLt("0", K[i]) /\ RLt(K[i], "1")
Saved == (Emit /\ n > 1) => PrintT("@@B " \o ToJson([y |-> y, q |-> q, b |-> b, r |-> r, K |-> K, D |-> D, n |-> n, K0 |-> K0, D0 |-> D0]))
=============================================================================
