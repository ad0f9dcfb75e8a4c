------------------------------- MODULE MC_Rat -------------------------------
(* The BigInteger implementation of Rat agrees with the definition of the   *)
(* field operations and of the order, on all fractions with numerator in    *)
(* -N..N and denominator in 1..N.                                           *)
EXTENDS Integers, Rat, TLC, Sequences
CONSTANT N
VARIABLES n1, d1, n2, d2
Init == n1 \in -N..N /\ d1 \in 1..N /\ n2 \in -N..N /\ d2 \in 1..N
Next == UNCHANGED <<n1, d1, n2, d2>>
Str(n, d) == ToString(n) \o "/" \o ToString(d)
Same(r, n, d) == REq(r, Str(n, d))
a == Str(n1, d1)
b == Str(n2, d2)
Abs(x) == IF x < 0 THEN -x ELSE x
Ok ==
  /\ Same(RAdd(a, b), n1 * d2 + n2 * d1, d1 * d2)
  /\ Same(RSub(a, b), n1 * d2 - n2 * d1, d1 * d2)
  /\ Same(RMul(a, b), n1 * n2, d1 * d2)
  /\ (n2 > 0 => Same(RDiv(a, b), n1 * d2, d1 * n2))
  /\ (n2 < 0 => Same(RDiv(a, b), -(n1 * d2), d1 * (-n2)))
  /\ (REq(a, b) <=> n1 * d2 = n2 * d1)
  /\ (RLt(a, b) <=> n1 * d2 < n2 * d1)
  /\ (RLe(a, b) <=> n1 * d2 <= n2 * d1)
  /\ (RClose(a, b, "0") <=> n1 * d2 = n2 * d1)
  /\ Same(RNeg(a), -n1, d1) /\ Same(RAbs(a), Abs(n1), d1)
  /\ RMin(a, b) \in {RAdd(a, "0"), RAdd(b, "0")} /\ RLe(RMin(a, b), a) /\ RLe(RMin(a, b), b)
  /\ RMax(a, b) \in {RAdd(a, "0"), RAdd(b, "0")} /\ RLe(a, RMax(a, b)) /\ RLe(b, RMax(a, b))
  /\ RFloor(a) = n1 \div d1 /\ Same(ToRat(n1), n1, 1)
  /\ REq(RPow(a, "2"), RMul(a, a)) /\ REq(RSqrt(RMul(a, a)), RAbs(a))
  /\ RClose(RLog(RExp(a)), a, "1/1000000000000000000000000000000")
  /\ RClose(RExp(RAdd(a, b)), RMul(RExp(a), RExp(b)), "1/1000000000000000000000000000000")
  /\ REq(RSum(<<a, b, a>>), RAdd(RAdd(a, b), a)) /\ REq(RDot(<<a, b>>, <<b, a>>), RMul(RMul("2", a), b))
  /\ RClose(RAdd(RNormCdf(a), RNormCdf(RNeg(a))), "1", "1/10000000000000000000000000000000000000000")
  /\ (RLt(a, b) => RLt(RNormCdf(a), RNormCdf(b)))
  /\ RClose(RNormCdf("1"), "0.841344746068542948585232545632", "1e-28") /\ RClose(RNormCdf("-5/2"), "0.006209665325776135166978104574", "1e-28")
  /\ RClose(RRound(RExp(a)), RExp(a), "1e-45")
  \* sin(x+y) sin(x-y) = sin(x)^2 - sin(y)^2, and known values
  /\ RClose(RMul(RSinPi(RAdd(a, b)), RSinPi(RSub(a, b))), RSub(RMul(RSinPi(a), RSinPi(a)), RMul(RSinPi(b), RSinPi(b))), "1e-45")
  /\ RClose(RSinPi("1/6"), "1/2", "1e-45") /\ RClose(RSinPi("1/2"), "1", "1e-45") /\ RClose(RMul(RSinPi("1/4"), RSinPi("1/4")), "1/2", "1e-45") /\ REq(RSinPi("1"), "0")
  /\ RClose(RSinPi("1/1000000"), RDiv(RPi, "1000000"), "1e-17") /\ RClose(RPi, "3.14159265358979323846264338327950288", "1e-34")
  /\ ~ RLe("nan", a) /\ ~ REq("nan", "nan") /\ RLt(a, "inf") /\ RLt("-inf", a) /\ RDot(<<a>>, <<>>) = "nan"
=============================================================================
