---------------------------- MODULE MC_Simulation ----------------------------
(* A model with integer coefficients, simulated along every path of shocks.  *)
(*   s' = s - x + m + 2 m'      x = A[m] + B[m] s                            *)
(* Dates = "right" is the machine; "late" and "early" are simulations which  *)
(* use the shock or the controls of another date, to show that the law tells *)
(* them apart.  With Emit, the complete paths are printed for the driver,    *)
(* which has to find the same ones with the real code.                       *)
EXTENDS Simulation, Json
CONSTANTS T, Dates, Emit
Nodes == <<-1, 2, 0>>
A == <<1, -1, 0>>
B == <<0, 1, -1>>
S0 == 3
Rule(i, s) == A[i] + B[i] * s
Step(i, s, x, j) == s - x + Nodes[i] + 2 * Nodes[j]
VARIABLE path
Init == \E i \in 1..Len(Nodes) : path = << [m |-> i, s |-> S0, x |-> Rule(i, S0)] >>
Last == path[Len(path)]
Next ==
  /\ Len(path) < T
  /\ \E j \in 1..Len(Nodes) :
       LET s == CASE Dates = "right" -> Step(Last.m, Last.s, Last.x, j)
                  [] Dates = "late" -> Step(Last.m, Last.s, Last.x, Last.m)
                  [] Dates = "early" -> Step(j, Last.s, Last.x, j)
                  [] OTHER -> Step(Last.m, Last.s, Rule(j, Last.s), j)
       IN path' = Append(path, [m |-> j, s |-> s, x |-> Rule(j, s)])
Law == Lawful(path, S0, Rule, Step)
(* the path is a function of the shocks *)
Paths == Len(path) = T /\ Emit => PrintT("@@B " \o ToJson(path))
=============================================================================
