-------------------------------- MODULE Interp --------------------------------
(***************************************************************************)
(* Interpolation on products of one-dimensional axes.                      *)
(*                                                                         *)
(* On each axis the interpolant at x is a weighted sum of the values at    *)
(* the nodes.  `linear`: the two ends of the cell of x (the first or last  *)
(* cell outside the axis).  `cubic`: the natural cubic spline through the  *)
(* nodes of an equidistant axis.  On a product of axes the weights are     *)
(* the products of the weights.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, Grid

Unit(n, i) == [k \in 1..n |-> IF k = i THEN "1" ELSE "0"]

(* cell of x: the largest k <= n-1 with node k <= x (1 if there is none) *)
Cell(axis, x) ==
  LET K == {k \in 1..(Len(axis) - 1) : RLe(axis[k], x)}
  IN IF K = {} THEN 1 ELSE CHOOSE k \in K : \A j \in K : j <= k
LinearWeights(axis, x) ==
  IF Len(axis) = 1 THEN <<"1">> ELSE
  LET c == Cell(axis, x)
      l == RDiv(RSub(x, axis[c]), RSub(axis[c + 1], axis[c]))
  IN [k \in 1..Len(axis) |-> IF k = c THEN RSub("1", l) ELSE IF k = c + 1 THEN l ELSE "0"]

(* second derivatives (times h^2) of the natural spline through v at unit   *)
(* spaced nodes:  m[k-1] + 4 m[k] + m[k+1] = 6 (v[k-1] - 2 v[k] + v[k+1]),  *)
(* m[1] = m[n] = 0, by elimination                                          *)
SecondDerivatives(v) ==
  LET n == Len(v)
      d(k) == RMul("6", RAdd(RSub(v[k - 1], RMul("2", v[k])), v[k + 1]))
      RECURSIVE Fwd(_)      \* Fwd(k): sequence of <<c', d'>> for rows 2..k
      Fwd(k) == IF k = 2 THEN << <<"1/4", RDiv(d(2), "4")>> >>
                ELSE LET p == Fwd(k - 1)
                         e == p[Len(p)]
                         den == RSub("4", e[1])
                     IN Append(p, <<RDiv("1", den), RDiv(RSub(d(k), e[2]), den)>>)
      F == Force(Fwd(n - 1))
      RECURSIVE Back(_, _)  \* from row k down to 2, next value m
      Back(k, m) == IF k = 1 THEN <<>>
                    ELSE LET p == F[k - 1]
                             x == RSub(p[2], RMul(p[1], m))
                         IN Append(Back(k - 1, x), x)
  IN IF n <= 2 THEN [k \in 1..n |-> "0"]
     ELSE <<"0">> \o Back(n - 1, "0") \o <<"0">>
(* value at position t (node k is at position k) in cell c *)
SplineIn(v, m, c, t) ==
  LET b == RSub(t, ToRat(c))
      a == RSub("1", b)
      cub(z) == RDiv(RSub(RMul(z, RMul(z, z)), z), "6")
  IN RSum(<<RMul(a, v[c]), RMul(b, v[c + 1]), RMul(cub(a), m[c]), RMul(cub(b), m[c + 1])>>)
Position(axis, x) == RAdd("1", RMul(ToRat(Len(axis) - 1), RDiv(RSub(x, axis[1]), RSub(axis[Len(axis)], axis[1]))))
PosCell(n, t) == LET f == RFloor(t) IN IF f < 1 THEN 1 ELSE IF f > n - 1 THEN n - 1 ELSE f
CubicWeights(axis, x) ==
  IF Len(axis) = 1 THEN <<"1">> ELSE
  LET n == Len(axis)
      t == RRound(Position(axis, x))
      c == PosCell(n, t)
  IN [i \in 1..n |-> SplineIn(Unit(n, i), Force(SecondDerivatives(Unit(n, i))), c, t)]
Weights(method, axis, x) == IF method = "cubic" THEN CubicWeights(axis, x) ELSE LinearWeights(axis, x)

(* V: values at the nodes of the product, last axis fastest; each value is  *)
(* a vector of nx numbers                                                   *)
RECURSIVE Contract(_, _)
Contract(ws, V) ==
  IF ws = <<>> THEN V[1]
  ELSE LET n == Len(ws[1])
           b == Len(V) \div n
           part(k) == Contract(Tail(ws), SubSeq(V, (k - 1) * b + 1, k * b))
           RECURSIVE Acc(_)
           Acc(k) == IF k = 0 THEN [i \in 1..Len(V[1]) |-> "0"]
                     ELSE IF REq(ws[1][k], "0") THEN Acc(k - 1)
                     ELSE VAdd(Acc(k - 1), VMul(ws[1][k], part(k)))
       IN Acc(n)
Interpolate(method, axes, V, x) ==
  Contract(Force([k \in 1..Len(axes) |-> Force(Weights(method, axes[k], x[k]))]), V)

Inside(axes, x) == \A k \in 1..Len(axes) : RLe(axes[k][1], x[k]) /\ RLe(x[k], axes[k][Len(axes[k])])

(* expansions around a point *)
RECURSIVE DotAll(_, _)
DotAll(T, ds) == \* contract a tensor with the same vector along all its axes
  IF ds = <<>> THEN T ELSE RDot([i \in 1..Len(T) |-> DotAll(T[i], Tail(ds))], Head(ds))
Taylor(xbar, coefs, d) ==   \* coefs[o][n]: tensor of order o
  [n \in 1..Len(xbar) |-> RSum(<<xbar[n]>> \o
     [o \in 1..Len(coefs) |-> RDiv(DotAll(coefs[o][n], [j \in 1..o |-> d]), IF o = 3 THEN "6" ELSE ToRat(o))])]
MatVec(A, x) == [i \in 1..Len(A) |-> RDot(A[i], x)]
=============================================================================
