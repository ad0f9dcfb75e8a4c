----------------------------- MODULE Simulation -----------------------------
(***************************************************************************)
(* Simulating a model under a decision rule: one path.                     *)
(*                                                                         *)
(* A path is a sequence of dates [m, s, x].  The machine starts in a given *)
(* state; at each date the controls are those of the rule, and the next    *)
(* state is the transition applied to the shock, state and controls of     *)
(* this date and to the shock of the next.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* P: indices of the path; Step(m, s, x, M) the transition; Rule(m, s)      *)
FollowsRule(path, Rule(_, _)) == \A t \in 1..Len(path) : path[t].x = Rule(path[t].m, path[t].s)
FollowsTransition(path, Step(_, _, _, _)) ==
  \A t \in 1..(Len(path) - 1) : path[t + 1].s = Step(path[t].m, path[t].s, path[t].x, path[t + 1].m)
Lawful(path, s0, Rule(_, _), Step(_, _, _, _)) ==
  /\ path = <<>> \/ path[1].s = s0
  /\ FollowsRule(path, Rule)
  /\ FollowsTransition(path, Step)
=============================================================================
