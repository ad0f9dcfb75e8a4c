------------------------------ MODULE Trace_Batch ------------------------------
(* L01: recorded batched and tensor operations, matrix equations.                *)
EXTENDS TraceCore, Tensor
E == Ev
Tol == "1/100000000"
TraceInit == TraceCoreInit
RECURSIVE Near(_, _, _)
Near(a, b, d) == IF d = 0 THEN RClose(a, b, Tol) ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], d - 1)
RECURSIVE FlatAll(_, _)
FlatAll(a, n) == IF n = 0 THEN a ELSE FlatAll(Flat(a), n - 1)
Unchanged == <<"arguments-are-left-unchanged", E.unchanged, E.op>>
Failed(c) == << <<c, FALSE, <<E.op, E.outcome>> >> >>
(* A[k] X[k] = B[k]; relative to the size of what is added up                   *)
SolvedAt(A, X, B) == LET R == MatSub(MatMul(A, X), B) s == RMul(RAdd("1", MaxEntry(A)), RAdd("1", MaxEntry(X)))
                     IN MatShape(X, Len(A), Cols(B)) /\ RLe(MaxEntry(R), RMul(Tol, s))
Solving ==
  /\ IsEvent("Solve")
  /\ Consume(IF E.outcome # "ok" /\ Has(E, "refusable") /\ E.refusable THEN << <<"unsupported-numbers-are-refused", TRUE>> >>
             ELSE IF E.outcome # "ok" THEN << <<"each-point-is-solved", \E k \in 1..Len(E.A) : Solve(E.A[k], E.B[k]) = <<>>, <<E.op, E.outcome>> >> >>
             ELSE << <<"each-point-is-solved", Len(E.X) = Len(E.A) /\ \A k \in 1..Len(E.A) : SolvedAt(E.A[k], E.X[k], E.B[k]), E.op>>, Unchanged >>)
Singular ==
  /\ IsEvent("Singular")
  /\ Consume(<< <<"singular-point-is-reported", E.outcome # "ok" /\ E.point = E.k, <<E.op, E.outcome, E.point, E.k>> >> >>)
Product ==
  /\ IsEvent("Product")
  /\ Consume(IF E.outcome # "ok" THEN Failed("each-point-is-multiplied")
             ELSE << <<"each-point-is-multiplied", Len(E.X) = Len(E.A) /\ \A k \in 1..Len(E.A) : Near(E.X[k], MatMul(E.A[k], E.B[k]), 2), E.op>>, Unchanged >>)
Tensors ==
  /\ IsEvent("Compose")
  /\ Consume(IF E.outcome # "ok" THEN Failed("multilinear-composition")
             ELSE << <<"multilinear-composition", Near(E.X, Force(Compose(E.T, E.nd, E.Cs, E.ds)), E.nx), <<E.op, E.nd, E.ds>> >>, Unchanged >>)
Equation ==
  /\ IsEvent("Sylvester")
  /\ Consume(IF E.outcome # "ok" THEN Failed("sylvester-equation-is-solved")
             ELSE << <<"sylvester-equation-is-solved", RLe(SupVec(FlatAll(Force(Sylvester(E.A, E.B, E.C, E.D, E.X, E.k)), E.k)), RMul(Tol, E.scale)), <<E.op, E.k>> >>, Unchanged >>)
Quadratics ==
  /\ IsEvent("Quadratic")
  /\ Consume(IF E.outcome # "ok" THEN Failed("quadratic-equation-is-solved")
             ELSE << <<"quadratic-equation-is-solved", RLe(MaxEntry(Quadratic(E.F, E.G, E.H, E.X)), RMul(Tol, E.scale))>>,
                     <<"stable-solution-is-selected", MatClose(E.X, E.P, "1/1000000")>>, Unchanged >>)
Orthogonal(U) == MatClose(MatMul(Transpose(U), U), Identity(Len(U)), Tol)
Schur ==
  /\ IsEvent("Schur")
  /\ Consume(IF E.outcome # "ok" THEN Failed("generalized-schur-decomposition")
             ELSE << <<"generalized-schur-decomposition", Orthogonal(E.U) /\ Orthogonal(E.V) /\ Near(MatMul(MatMul(E.U, E.S), Transpose(E.V)), E.A, 2)
                                                           /\ Near(MatMul(MatMul(E.U, E.T), Transpose(E.V)), E.B, 2)>>,
                     <<"big-eigenvalues-come-first", \A i, j \in 1..Len(E.eig) : (i < j /\ RLt(E.crit, E.eig[j])) => RLt(RMul(E.crit, "0.999999"), E.eig[i]), <<E.eig, E.crit>> >>, Unchanged >>)
(* numerical derivatives of polynomial maps f_a(x) = sum_b Q[a][b] x_b^2 + L[a][b] x_b *)
Slope(Q, L, x, a, b) == RAdd(RMul("2", RMul(Q[a][b], x[b])), L[a][b])
Derivatives ==
  /\ IsEvent("Derivative")
  /\ Consume(IF E.outcome # "ok" THEN Failed("each-point-is-differentiated")
             ELSE << <<"each-point-is-differentiated",
                       MatShape(E.J, Len(E.Q), Len(E.Q[1])) /\ \A a \in 1..Len(E.Q) : \A b \in 1..Len(E.Q[1]) :
                          Len(E.J[a][b]) = Len(E.x) /\ \A n \in 1..Len(E.x) : RClose(E.J[a][b][n], Slope(E.Q, E.L, E.x[n], a, b), "1/1000000"), E.op>>, Unchanged >>)
TraceNext == Solving \/ Singular \/ Product \/ Tensors \/ Equation \/ Quadratics \/ Schur \/ Derivatives \/ Stopped
===============================================================================
