---------------------------- MODULE MC_Foresight ----------------------------
(* s' = a s + b x + e',  x = c x' + d s between bounds, over three dates:      *)
(* all the paths which satisfy the conditions, by enumeration of the dates at  *)
(* which the control is at a bound.  Emit: they are written for replay.        *)
EXTENDS Foresight, TLC, Json
CONSTANT Emit
VARIABLES a, b, c, d, bd, s0, e
T == 2
Init == /\ a \in {"0", "1/2"} /\ b \in {"0", "1/4"} /\ c \in {"1/4", "-1/2"} /\ d \in {"1/2", "-1"}
        /\ bd \in {<<"-inf", "inf">>, <<"-1/4", "1/4">>, <<"0", "inf">>}
        /\ e \in {<<"0", "0", "0">>, <<"0", "1", "0">>, <<"1", "0", "-1">>, <<"-1/2", "-1/2", "0">>}
        /\ s0 \in (IF e = <<"0", "0", "0">> THEN {"1", "-1/2", "steady"} ELSE {"steady"})
Next == UNCHANGED <<a, b, c, d, bd, s0, e>>
(* steady state of the unconstrained economy for e[1] *)
Steady == Zero(<<<<RSub(a, "1"), b>>, <<RNeg(d), RSub("1", c)>>>>, <<e[1], "0">>)
Start == IF s0 = "steady" THEN Steady[1] ELSE s0
RECURSIVE State(_, _)
State(x, t) == IF t = 0 THEN Start ELSE RAdd(RAdd(RMul(a, State(x, t - 1)), RMul(b, x[t])), e[t + 1])
Cond(x) == [t \in 1..(T + 1) |-> IF t = T + 1 THEN RSub(x[T + 1], x[T])
                                ELSE RSub(x[t], RAdd(RMul(c, x[t + 1]), RMul(d, State(x, t - 1))))]
Aff == Affine(Cond, T + 1)
Prob == [A |-> Aff.J, B |-> Aff.R0, C |-> [i \in 1..(T + 1) |-> "0"], D |-> [i \in 1..(T + 1) |-> "0"]]
Lb == [i \in 1..(T + 1) |-> bd[1]]
Ub == [i \in 1..(T + 1) |-> bd[2]]
Sols == Solutions(Force(Prob), Lb, Ub)
S == Force(Sols)
Exists == S # {}
(* without shocks, from the steady state, nothing moves (when it is feasible)  *)
Rests == (s0 = "steady" /\ e[1] = e[2] /\ e[2] = e[3] /\ RLe(bd[1], Steady[2]) /\ RLe(Steady[2], bd[2])) =>
           \E x \in S : \A t \in 1..(T + 1) : REq(x[t], Steady[2])
Meets == \A x \in S : \A t \in 1..(T + 1) : REq(Natural(Cond(x)[t], bd[1], bd[2], x[t]), "0")
RECURSIVE AsSeq(_)
AsSeq(Z) == IF Z = {} THEN <<>> ELSE LET z == CHOOSE y \in Z : TRUE IN <<[x |-> z, s |-> [t \in 1..(T + 1) |-> State(z, t - 1)]]>> \o AsSeq(Z \ {z})
Paths == Emit => PrintT("@@B " \o ToJson([a |-> a, b |-> b, c |-> c, d |-> d, lb |-> bd[1], ub |-> bd[2], e |-> e, s0 |-> s0, paths |-> AsSeq(S)]))
==============================================================================
