----------------------------- MODULE SteadyState -----------------------------
(***************************************************************************)
(* The residuals of a model at a point held constant, and its steady       *)
(* states: the points where they vanish.                                   *)
(***************************************************************************)
EXTENDS Linear, DoloModel
Still(m, s, x, p) == [transition |-> <<m, s, x, m, p>>, arbitrage |-> <<m, s, x, m, s, x, p>>]
(* <<value, bound on the rounding error>> *)
ResidualsE(M, m, s, x, p) ==
  LET T == MeaningE(M, "transition", Still(m, s, x, p).transition)
  IN [transition |-> [i \in 1..Len(T) |-> IF i > Len(s) THEN T[i] ELSE Err2("sub", T[i], <<s[i], "0">>)],
      arbitrage |-> MeaningE(M, "arbitrage", Still(m, s, x, p).arbitrage)]
Residuals(M, m, s, x, p) ==
  LET T == Meaning(M, "transition", Still(m, s, x, p).transition)
  IN RoundVec([i \in 1..Len(T) |-> RSub(T[i], s[i])] \o Meaning(M, "arbitrage", Still(m, s, x, p).arbitrage))
(* an affine map v |-> R0 + J v vanishes at one point, none, or many          *)
Zero(J, R0) == LET X == Solve(J, [i \in 1..Len(R0) |-> <<RNeg(R0[i])>>]) IN IF X = <<>> THEN <<>> ELSE Col(X, 1)
(* the map itself, read off its values: column k is R(e_k) - R0               *)
Unit(n, k) == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
Affine(R(_), n) == LET r == R(Unit(n, 0)) IN [R0 |-> r, J |-> Transpose([k \in 1..n |-> VSub(R(Unit(n, k)), r)])]
SteadyOfLinear(M, m, p) ==
  LET ns == Len(M.symbols.states) n == ns + Len(M.symbols.controls)
      R(v) == Residuals(M, m, SubSeq(v, 1, ns), SubSeq(v, ns + 1, n), p)
      A == Force(Affine(R, n))
  IN Zero(A.J, A.R0)
(* two equations a s + b x + c = 0, d s + e x + f = 0 *)
Class2(a, b, c, d, e, f) ==
  LET det == RSub(RMul(a, e), RMul(b, d))
  IN IF ~ REq(det, "0") THEN "one"
     ELSE IF a = "0" /\ b = "0" /\ ~ REq(c, "0") THEN "none"
     ELSE IF d = "0" /\ e = "0" /\ ~ REq(f, "0") THEN "none"
     ELSE IF REq(RMul(a, f), RMul(d, c)) /\ REq(RMul(b, f), RMul(e, c)) THEN "many" ELSE "none"
===============================================================================
