---------------------------------- MODULE Egm ----------------------------------
(***************************************************************************)
(* The method of endogenous gridpoints: optimality conditions solved        *)
(* without root finding.                                                    *)
(*                                                                         *)
(* State: for each node i of the shocks and each post-state a[n], a control *)
(* x and the state s from which a[n] is reached by choosing x.  The rule of *)
(* node i is the piecewise linear curve through these points (the first and *)
(* last pieces extended), clipped to the bounds of the controls.            *)
(*                                                                         *)
(* Step: at node i and post-state a, next states are given by the half      *)
(* transition, next controls by the rule, expectations by the law of the    *)
(* shocks; the control is the direct response to these expectations and s   *)
(* is the reversed state.                                                   *)
(***************************************************************************)
EXTENDS Equilibrium

(* the curve of one node: a sequence of points [s, x]                       *)
Pick(T, f(_)) == [n \in 1..Len(T) |-> f(T[n])]
Sorted(T) == \A n \in 1..(Len(T) - 1) : RLt(RAdd(T[n].s, "1/1000"), T[n + 1].s)
Curve(T, s) ==
  LET S == [n \in 1..Len(T) |-> T[n].s]
      k == LET c == VCountLe(S, s) IN IF c < 1 THEN 1 ELSE IF c > Len(T) - 1 THEN Len(T) - 1 ELSE c
      l == RDiv(RSub(s, S[k]), RSub(S[k + 1], S[k]))
  IN RAdd(RMul(RSub("1", l), T[k].x), RMul(l, T[k + 1].x))
Clip(M, m, s, x) == RMax(RMin(x, Upper(M, m, s)[1]), Lower(M, m, s)[1])
(* the rule of node i (1-based) in table tab                                *)
Followed(M, nodes, tab, i, s) == RRound(Clip(M, nodes[i], s, Curve(tab[i], s[1])))

(* one step; next(j, m, s): next period's control                           *)
Points(M, nodes, at, a, Next(_, _, _)) ==
  [i \in 1..Len(nodes) |-> [n \in 1..Len(a) |->
     LET m == nodes[i]
         f(z) == LET S == RoundAll(Meaning(M, "half_transition", <<m, <<a[n]>>, z.m, M.p>>))
                 IN Meaning(M, "expectation", <<z.m, S, <<Next(z.j, z.m, S)>>, M.p>>)
         e == Force(Expect(at[i], f, 1))
         x == Force(RoundAll(Meaning(M, "direct_response_egm", <<m, <<a[n]>>, e, M.p>>)))
         s == Force(RoundAll(Meaning(M, "reverse_state", <<m, <<a[n]>>, x, M.p>>)))
     IN [s |-> s[1], x |-> x[1]] ]]
Gap(T, U, f(_)) == MaxOf([i \in 1..Len(T) |-> MaxOf([n \in 1..Len(T[i]) |-> RAbs(RSub(f(T[i][n]), f(U[i][n])))])])
Distance(T, U) == RAdd(Gap(T, U, LAMBDA p : p.x), Gap(T, U, LAMBDA p : p.s))
(* tables after 1, 2, ..., k steps, from the rule `first`                   *)
RECURSIVE Tables(_, _, _, _, _, _, _)
Tables(M, nodes, at, a, iid, First(_, _, _), k) ==
  IF k = 1 THEN << Force(Points(M, nodes, at, a, First)) >>
  ELSE LET p == Tables(M, nodes, at, a, iid, First, k - 1)
           g(j, m, s) == Followed(M, nodes, p[k - 1], IF iid THEN 1 ELSE j + 1, s)
       IN Append(p, Force(Points(M, nodes, at, a, g)))
=============================================================================
