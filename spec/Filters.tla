------------------------------- MODULE Filters -------------------------------
(* H01: the Hodrick-Prescott trend and the band-pass filter of Baxter and King *)
EXTENDS Linear
(* second differences of a series, none beyond its ends *)
Second(T, t) == IF t \in 1..(Len(T) - 2) THEN RAdd(RSub(T[t], RMul("2", T[t + 1])), T[t + 2]) ELSE "0"
(* what the trend minimizes, and its derivative (halved) *)
Loss(T, y, lam) == RAdd(RSum([t \in 1..Len(y) |-> RMul(RSub(y[t], T[t]), RSub(y[t], T[t]))]),
                        RMul(lam, RSum([t \in 1..Len(y) |-> RMul(Second(T, t), Second(T, t))])))
Gradient(T, y, lam) == LET d == Force([t \in 1..(Len(T) + 2) |-> Second(T, t - 2)])       \* d[t] is Second(T, t-2)
  IN [t \in 1..Len(y) |-> RAdd(RSub(T[t], y[t]), RMul(lam, RAdd(RSub(d[t], RMul("2", d[t + 1])), d[t + 2])))]
(* the normal equations, column by column, and the trend *)
Unit(n, j) == [i \in 1..n |-> IF i = j THEN "1" ELSE "0"]
Zero(n) == [i \in 1..n |-> "0"]
Normal(n, lam) == Transpose([j \in 1..n |-> Gradient(Unit(n, j), Zero(n), lam)])
Trend(y, lam) == LET X == Solve(Force(Normal(Len(y), lam)), [i \in 1..Len(y) |-> <<y[i]>>]) IN [i \in 1..Len(y) |-> X[i][1]]
(* band-pass: weights of order k for periods between w1 and w2 *)
Ideal(j, w1, w2) == IF j = 0 THEN RSub(RDiv("2", w1), RDiv("2", w2))
                    ELSE RDiv(RSub(RSinPi(RDiv(ToRat(2 * j), w1)), RSinPi(RDiv(ToRat(2 * j), w2))), RMul(RPi, ToRat(j)))
Abs(j) == IF j < 0 THEN -j ELSE j
Weights(k, w1, w2) == LET b == Force([j \in 1..(2 * k + 1) |-> Ideal(Abs(j - k - 1), w1, w2)])
                          c == RDiv(RSum(b), ToRat(2 * k + 1)) IN [j \in 1..(2 * k + 1) |-> RRound(RSub(b[j], c))]
Pass(y, b) == [t \in 1..(Len(y) - Len(b) + 1) |-> RDot(b, SubSeq(y, t, t + Len(b) - 1))]
==============================================================================
