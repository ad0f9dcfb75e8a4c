----------------------------- MODULE Perturbation -----------------------------
(***************************************************************************)
(* First-order solution of a model around a point.                         *)
(*                                                                         *)
(* The linearized system, for states z (the exogenous variables too when   *)
(* they are autocorrelated) and controls x, is                             *)
(*     z' = Gz z + Gx x + (innovations)                                    *)
(*     0  = Fz z + Fx x + E[ FZ z' + FX x' ].                              *)
(* A rule x = C z solves it iff                                            *)
(*     Fz + Fx C + (FZ + FX C) (Gz + Gx C) = 0.                            *)
(* Its dynamics are P = Gz + Gx C.  Deviations y from the rule follow      *)
(*     (Fx + (FZ + FX C) Gx) y = - FX y'                                   *)
(* so that the roots which are not those of P are the inverses of those of *)
(* W = - (Fx + (FZ + FX C) Gx)^-1 FX.                                      *)
(***************************************************************************)
EXTENDS Linear, DoloModel, FiniteSets

Jacobian(M, b, args, j) ==
  LET n == Len(Formulas(M, b)) k == Len(args[j])
  IN [i \in 1..n |-> [c \in 1..k |-> RRound(Derivative(M, b, args, i, j, c))]]
(* at the point (m, s, x); A: autocorrelation of the exogenous variables, or *)
(* <<>> when they are independent                                            *)
System(M, A, m, s, x) ==
  LET a == <<m, s, x, m, s, x, M.p>>
      g == <<m, s, x, m, M.p>>
      f(j) == Jacobian(M, "arbitrage", a, j)
      h(j) == Jacobian(M, "transition", g, j)
  IN IF A = <<>> THEN [Gz |-> h(2), Gx |-> h(3), Fz |-> f(2), Fx |-> f(3), FZ |-> f(5), FX |-> f(6)]
     ELSE LET nm == Len(m) ns == Len(s) nx == Len(x)
          IN [Gz |-> Above(Beside(A, ZeroMat(nm, ns)), Beside(MatAdd(h(1), MatMul(h(4), A)), h(2))),
              Gx |-> Above(ZeroMat(nm, nx), h(3)),
              Fz |-> Beside(f(1), f(2)), Fx |-> f(3), FZ |-> Beside(f(4), f(5)), FX |-> f(6)]
Dynamics(Y, C) == MatAdd(Y.Gz, MatMul(Y.Gx, C))
Feedback(Y, C) == MatAdd(Y.FZ, MatMul(Y.FX, C))
Gap(Y, C) == MatAdd(MatAdd(Y.Fz, MatMul(Y.Fx, C)), MatMul(Feedback(Y, C), Dynamics(Y, C)))
Off(Y, C) == Solve(MatAdd(Y.Fx, MatMul(Feedback(Y, C), Y.Gx)), MatNeg(Y.FX))

(* moduli of all the roots -> what must be reported; n: number of states      *)
Below1(mod) == Cardinality({i \in 1..Len(mod) : RLt(mod[i], "1")})
Class(mod, n) == IF Below1(mod) = n THEN "unique" ELSE IF Below1(mod) < n THEN "none" ELSE "many"
Separable(mod, n) == \E c \in {mod[i] : i \in 1..Len(mod)} : Cardinality({i \in 1..Len(mod) : RLe(mod[i], c)}) = n
===============================================================================
