------------------------------- MODULE Figure -------------------------------
(***************************************************************************)
(* Figures of simulations and of decision rules (I01).                     *)
(*                                                                         *)
(* A simulation is a table: dates and, for each variable, as many values.  *)
(* A figure of simulations has one panel per variable, in order; a panel   *)
(* has one line per simulation, in order; a line joins the values of the   *)
(* variable in the simulation, at its dates, up to the horizon.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat
LOCAL Min2(a, b) == IF a < b THEN a ELSE b
Upto(s, h) == SubSeq(s, 1, Min2(h, Len(s)))
MaxPanels == 12
Line(sim, v, h) == [x |-> Upto(sim.dates, h), y |-> Upto(sim.vars[v], h)]
Panel(sims, v, t, h) == [title |-> t, lines |-> [j \in 1..Len(sims) |-> Line(sims[j], v, h)]]
Panels(sims, vs, ts, h) == [k \in 1..Len(vs) |-> Panel(sims, vs[k], ts[k], h)]
(* rows and columns of the panels when none are asked for *)
Layout(n) ==
  CASE n = 1 -> <<1, 1>> [] n = 2 -> <<1, 2>> [] n = 3 -> <<1, 3>> [] n = 4 -> <<2, 2>> [] n \in {5, 6} -> <<2, 3>>
    [] n \in {7, 8} -> <<4, 2>> [] n = 9 -> <<3, 3>> [] OTHER -> <<4, 3>>
(* a linear rule x = b + K s, read along state i from lo to hi in n points, the other states at s0 *)
Point(lo, hi, n, k) == RAdd(lo, RMul(RSub(hi, lo), RDiv(ToRat(k - 1), ToRat(n - 1))))
State(s0, i, z) == [s0 EXCEPT ![i] = z]
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN "0" ELSE RAdd(RMul(Head(a), Head(b)), Dot(Tail(a), Tail(b)))
Rule(b, K, s) == RAdd(b, Dot(K, s))
==============================================================================
