------------------------------- MODULE MC_Chain -------------------------------
(* Design: the sampler as a state machine, on all chains of two or three     *)
(* states with the rows below (rows that do not sum exactly to one among     *)
(* them, as floating-point rows do) and all draws on a fine mesh.            *)
EXTENDS Chain
CONSTANTS N, T, K, Raw
VARIABLES Q, s0, path
Rows == IF N = 2 THEN {<<"1", "0">>, <<"0", "1">>, <<"1/2", "1/2">>, <<"1/4", "3/4">>, <<"249/500", "1/2">>}
        ELSE {<<"1", "0", "0">>, <<"0", "0", "1">>, <<"0", "1/2", "1/2">>, <<"333/1000", "333/1000", "333/1000">>, <<"1/4", "0", "3/4">>}
us == {RDiv(ToRat(k), ToRat(K)) : k \in 0..(K - 1)}
Init == Q \in [1..N -> Rows] /\ s0 \in 1..N /\ path = <<s0>>
Next == /\ Len(path) < T
        /\ path[Len(path)] \in 1..N
        /\ \E u \in us : path' = Append(path, IF Raw THEN PickRaw(Q[path[Len(path)]], u) ELSE Pick(Q[path[Len(path)]], u))
        /\ UNCHANGED <<Q, s0>>
InStates == \A t \in 1..Len(path) : path[t] \in 1..N
Legal == InStates => LegalPath(Q, path)
Starts == path[1] = s0
(* the draws which pick j have measure Q[i][j]: on rows whose thresholds lie on the mesh, exactly *)
Measure == \A i \in 1..N : (K % 4 = 0 /\ Q[i] \in {<<"1/2", "1/2">>, <<"1/4", "3/4">>, <<"0", "1/2", "1/2">>, <<"1/4", "0", "3/4">>}) =>
             \A j \in 1..N : REq(RDiv(ToRat(Cardinality({u \in us : Pick(Q[i], u) = j})), ToRat(K)), Q[i][j])
(* path probabilities add up to one *)
Sums == (Len(path) = 1 /\ (\A i \in 1..N : REq(Total(Q[i]), "1"))) =>
          LET ps == {p \in Paths(N, T) : p[1] = s0}
              RECURSIVE Add(_)
              Add(S) == IF S = {} THEN "0" ELSE LET p == CHOOSE p \in S : TRUE IN RAdd(PathProb(Q, p), Add(S \ {p}))
          IN REq(Add(ps), "1")
=============================================================================
