---------------------------- MODULE MC_Equilibrium ----------------------------
(* Complementarity on small numbers: Slack is zero exactly on the three cases   *)
(* of the conditions, and the scalar economy                                    *)
(*     f = x - (a + c X)   with   lb <= x <= ub                                 *)
(* with a constant rule X = x has exactly one fixed point.                      *)
EXTENDS Equilibrium, TLC, Json, FiniteSets
CONSTANTS N, Emit
VARIABLES a, c, lb, ub
vars == <<a, c, lb, ub>>
I == -N..N
Half(k) == RDiv(ToRat(k), "2")
Init == a \in I /\ c \in {"1/2", "-1/2", "1/4", "0"} /\ lb \in I /\ ub \in I /\ lb <= ub
Next == UNCHANGED vars
B(k, inf) == IF k = N THEN inf ELSE Half(k)
LB == IF lb = -N THEN "-inf" ELSE Half(lb)
UB == IF ub = N THEN "inf" ELSE Half(ub)
Fx(x, X) == RSub(x, RAdd(ToRat(a), RMul(c, X)))
Conditions(f, x) == /\ RLe(LB, x) /\ RLe(x, UB)
                    /\ \/ REq(f, "0") \/ (RLt("0", f) /\ REq(x, LB)) \/ (RLt(f, "0") /\ REq(x, UB))
SlackIsRight == \A fi \in I : \A xi \in I : REq(Slack(Half(fi), LB, UB, Half(xi)), "0") <=> Conditions(Half(fi), Half(xi))
Candidates == {RDiv(ToRat(a), RSub("1", c))} \cup (IF LB = "-inf" THEN {} ELSE {LB}) \cup (IF UB = "inf" THEN {} ELSE {UB})
Fixed == {x \in Candidates : Conditions(Fx(x, x), x)}
Unique == Cardinality(Fixed) = 1
(* successive approximations contract to it: |clip(a + c X) - x*| <= |c| |X - x*| *)
Clip(x) == RMin(RMax(x, LB), UB)
Contracts == LET x == CHOOSE z \in Fixed : TRUE IN
             \A k \in I : RLe(RAbs(RSub(Clip(RAdd(ToRat(a), RMul(c, Half(k)))), x)), RMul(RAbs(c), RAbs(RSub(Half(k), x))))
Economies == Emit => PrintT("@@B " \o ToJson([a |-> a, c |-> c, lb |-> LB, ub |-> UB, x |-> CHOOSE z \in Fixed : TRUE]))
=============================================================================
