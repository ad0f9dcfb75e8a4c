----------------------------- MODULE MC_Filters -----------------------------
(* The trend of every short series over {0, 1, -2}: it minimizes the loss,    *)
(* straight lines are their own trend, cycles have no mean and no slope; the   *)
(* band-pass filter ignores constants.  Emit: the trends are computed again.  *)
EXTENDS Filters, TLC, Json
CONSTANTS N, Emit
VARIABLES y, lam
Init == /\ y \in UNION {[1..n -> {"0", "1", "-2"}] : n \in 4..N} /\ lam \in {"0", "1/2", "7", "1600"}
Next == UNCHANGED <<y, lam>>
T == Trend(y, lam)
Optimal == LET t0 == Force(T) v == Loss(t0, y, lam)
  IN /\ \A i \in 1..Len(y) : RClose(Gradient(t0, y, lam)[i], "0", "1e-30")
     /\ \A i \in 1..Len(y) : \A e \in {"1/8", "-1/8"} : RLt(v, Loss([t0 EXCEPT ![i] = RAdd(@, e)], y, lam))
Flat1 == LET t0 == Force(T) n == Len(y) c == [i \in 1..n |-> RSub(y[i], t0[i])]
  IN RClose(RSum(c), "0", "1e-30") /\ RClose(RSum([i \in 1..n |-> RMul(ToRat(i), c[i])]), "0", "1e-30")
Line == LET z == [i \in 1..Len(y) |-> RAdd(y[1], RMul(y[2], ToRat(i)))] t0 == Force(Trend(z, lam)) IN \A i \in 1..Len(y) : RClose(t0[i], z[i], "1e-30")
Ignores == \A k \in 1..2 : LET b == Force(Weights(k, "6", "32")) IN RClose(RSum(b), "0", "1e-40") /\ \A j \in 1..Len(b) : REq(b[j], b[Len(b) + 1 - j])
Trends == Emit => PrintT("@@B " \o ToJson([y |-> y, lam |-> lam, T |-> T]))
==============================================================================
