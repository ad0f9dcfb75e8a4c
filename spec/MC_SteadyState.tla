--------------------------- MODULE MC_SteadyState ---------------------------
(* Models s' = (1+a) s + b x + c,  0 = d s + e x + f: which of them have a    *)
(* steady state, and where.  Emit: they are written for replay.               *)
EXTENDS SteadyState, TLC, Json
CONSTANT Emit
Val == {"-1", "0", "1/2", "2"}
VARIABLES a, b, c, d, e, f
Init == a \in Val /\ b \in Val /\ c \in Val /\ d \in Val /\ e \in Val /\ f \in {"0", "1"}
Next == UNCHANGED <<a, b, c, d, e, f>>
At(z) == <<RAdd(RAdd(RMul(a, z[1]), RMul(b, z[2])), c), RAdd(RAdd(RMul(d, z[1]), RMul(e, z[2])), f)>>
Z == Zero(<<<<a, b>>, <<d, e>>>>, <<c, f>>)
Grid == {"-2", "-1", "-1/2", "0", "1/2", "1", "2"}
IsZero(v) == REq(v[1], "0") /\ REq(v[2], "0")
k == Class2(a, b, c, d, e, f)
Classified ==
  /\ (k = "one") = (Z # <<>>)
  /\ (Z # <<>> => IsZero(At(Z)))
  /\ (k = "none" => \A u, v \in Grid : ~ IsZero(At(<<u, v>>)))
  /\ (k = "one" => \A u, v \in Grid : IsZero(At(<<u, v>>)) => REq(u, Z[1]) /\ REq(v, Z[2]))
M == [symbols |-> [exogenous |-> <<"e">>, states |-> <<"s">>, controls |-> <<"x">>, parameters |-> <<>>], defs |-> <<>>,
      blocks |-> [transition |-> <<[rhs |-> <<"add", <<"add", <<"mul", <<"num", RAdd("1", a)>>, <<"var", "s", -1>>>>, <<"mul", <<"num", b>>, <<"var", "x", -1>>>>>>, <<"num", c>>>>]>>,
                  arbitrage |-> <<[rhs |-> <<"add", <<"add", <<"mul", <<"num", d>>, <<"var", "s", 0>>>>, <<"mul", <<"num", e>>, <<"var", "x", 0>>>>>>, <<"num", f>>>>]>>]]
Meant == k = "one" => SteadyOfLinear(M, <<"0">>, <<>>) = Z
Models == Emit => PrintT("@@B " \o ToJson([a |-> a, b |-> b, c |-> c, d |-> d, e |-> e, f |-> f, class |-> k, z |-> Z]))
==============================================================================
