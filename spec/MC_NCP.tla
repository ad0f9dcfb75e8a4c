-------------------------------- MODULE MC_NCP --------------------------------
(* Small linear complementarity problems: a P-matrix gives exactly one        *)
(* solution, whatever the bounds.  Emit: the problems and their solutions are *)
(* written for replay on the real solvers.                                    *)
EXTENDS NCP, TLC, Json, FiniteSets
CONSTANT Emit
VARIABLES a, b, lo, up
Entries == {"-1", "0", "1/2"}
Init == /\ a \in {<<<<d, u>>, <<v, e>>>> : d, e \in {"1", "2"}, u, v \in Entries}
        /\ b \in {<<"0", "0">>, <<"-1", "1/2">>, <<"1", "-1">>}
        /\ lo \in {<<"0", "0">>, <<"-inf", "0">>, <<"-1/2", "-inf">>, <<"-inf", "-inf">>}
        /\ up \in {<<"1", "inf">>, <<"inf", "inf">>, <<"1/4", "1/2">>}
Next == UNCHANGED <<a, b, lo, up>>
P == [A |-> a, B |-> b, C |-> <<"0", "0">>, D |-> <<"0", "0">>]
S == Solutions(P, lo, up)
Existence == PMatrix(a) => Cardinality(S) = 1
Without == (lo = <<"-inf", "-inf">> /\ up = <<"inf", "inf">> /\ PMatrix(a)) => S = {Pinned(P, lo, up, <<"in", "in">>)}
Problems == (Emit /\ PMatrix(a)) => PrintT("@@B " \o ToJson([A |-> a, B |-> b, lb |-> lo, ub |-> up, x |-> CHOOSE x \in S : TRUE]))
===============================================================================
