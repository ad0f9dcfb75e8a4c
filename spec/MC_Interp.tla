------------------------------- MODULE MC_Interp -------------------------------
(* Design: on all small axes and data, the interpolants pass through their   *)
(* data, reproduce (multi)linear functions, and the spline is twice          *)
(* continuously differentiable with zero curvature at the ends.              *)
EXTENDS Interp
CONSTANTS MaxN, K
VARIABLES n, v, method, a, h
Vals == {"0", "1", "-2", "5/2"}
Init == /\ n \in 2..MaxN /\ v \in [1..n -> Vals] /\ method \in {"linear", "cubic"}
        /\ a \in {"0", "-3/2"} /\ h \in {"1", "1/3"}
Next == UNCHANGED <<n, v, method, a, h>>
axis == [k \in 1..n |-> RAdd(a, RMul(ToRat(k - 1), h))]
V == [k \in 1..n |-> <<v[k]>>]
Val(x) == Interpolate(method, <<axis>>, V, <<x>>)[1]
Interpolates == \A k \in 1..n : REq(Val(axis[k]), v[k])
Xs == {RAdd(a, RMul(RDiv(ToRat(j), ToRat(K)), h)) : j \in 0..(K * (n - 1))}
Partition == \A x \in Xs : REq(RSum(Weights(method, axis, x)), "1")
Linears == \A x \in Xs \cup {RSub(a, "2"), RAdd(a, "9")} :
   REq(RDot(Weights(method, axis, x), [k \in 1..n |-> RAdd("3", RMul("-7/4", axis[k]))]), RAdd("3", RMul("-7/4", x)))
(* at interior knots the two cells agree up to second divided differences    *)
Smooth == (method = "cubic") => \A k \in 2..(n - 1) :
   LET m == SecondDerivatives(v)
       L(e) == SplineIn(v, m, k - 1, RAdd(ToRat(k), e))
       R(e) == SplineIn(v, m, k, RAdd(ToRat(k), e))
       \* a cubic p: p'(0) = (8(p(1)-p(-1)) - (p(2)-p(-2)))/12 exactly, p''(0) = p(1)-2p(0)+p(-1)
       D1(p(_)) == RDiv(RSub(RMul("8", RSub(p("1"), p("-1"))), RSub(p("2"), p("-2"))), "12")
       D2(p(_)) == RAdd(RSub(p("1"), RMul("2", p("0"))), p("-1"))
   IN REq(L("0"), R("0")) /\ REq(D1(L), D1(R)) /\ REq(D2(L), D2(R)) /\ REq(D2(R), m[k])
Natural == LET m == SecondDerivatives(v) IN Len(m) = n /\ REq(m[1], "0") /\ REq(m[n], "0")
(* bilinear functions on a product *)
Bilinear == method = "linear" => \A x \in {"0", "1/7", "5"}, y \in {"-1", "2/3"} :
   LET f(p, q) == RAdd("1", RSub(RMul("2", p), RMul(RMul("3", p), q)))
       A2 == <<"0", "1", "4">>
       W == [i \in 1..(n * 3) |-> <<f(axis[((i - 1) \div 3) + 1], A2[((i - 1) % 3) + 1])>>]
   IN REq(Interpolate(method, <<axis, A2>>, W, <<x, y>>)[1], f(x, y))
Ok == Interpolates /\ Partition /\ Linears /\ Smooth /\ Natural /\ Bilinear
=============================================================================
