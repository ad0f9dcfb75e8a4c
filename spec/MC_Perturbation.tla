--------------------------- MODULE MC_Perturbation ---------------------------
(***************************************************************************)
(* One state, one control, two real roots p and u: the system whose         *)
(* solutions are x = c s with dynamics p, and x = d s with dynamics u.      *)
(* Design: both rules solve the linearized system, the root left out by    *)
(* each is the other one, and the one selected (smaller root) is stable    *)
(* and alone to be so exactly when the system is classified "unique".      *)
(* Emit: the systems are written for replay on the real code.              *)
(***************************************************************************)
EXTENDS Perturbation, TLC, Json
CONSTANT Emit
Roots == {"-3/2", "-5/4", "-1/2", "0", "1/4", "3/4", "5/4", "2"}
Cs == {"-1", "1/2", "2"}
VARIABLES p, u, c, g
Init == p \in Roots /\ u \in Roots \ {p} /\ c \in Cs /\ g \in {"1", "-1/2"}
Next == UNCHANGED <<p, u, c, g>>
One(a) == <<<<a>>>>
Y == [Gz |-> One(RSub(p, RMul(g, c))), Gx |-> One(g), Fz |-> One(RMul(u, c)), Fx |-> One(RNeg(u)), FZ |-> One(RNeg(c)), FX |-> One("1")]
d == RAdd(c, RDiv(RSub(u, p), g))                          \* dynamics u
Small == IF RLt(RAbs(p), RAbs(u)) THEN c ELSE d
Big(C) == Inverse(Off(Y, C))
Theory ==
  /\ Gap(Y, One(c)) = One("0") /\ Gap(Y, One(d)) = One("0")
  /\ REq(Dynamics(Y, One(c))[1][1], p) /\ REq(Dynamics(Y, One(d))[1][1], u)
  /\ (u # "0" => REq(Big(One(c))[1][1], u))
Selection ==
  RAbs(p) # RAbs(u) =>
    LET P == Dynamics(Y, One(Small)) W == Off(Y, One(Small)) k == Class(<<RAbs(p), RAbs(u)>>, 1)
    IN /\ (W # <<>> => (k = "unique") = (Contracts(P) /\ Contracts(W)))
       /\ (k = "none") = ~ Contracts(P)
       /\ (W # <<>> => (k = "many") = ~ Contracts(W))
Line == [Gz |-> Y.Gz[1][1], Gx |-> g, Fz |-> Y.Fz[1][1], Fx |-> Y.Fx[1][1], FZ |-> Y.FZ[1][1], C |-> Small,
         class |-> IF RAbs(p) = RAbs(u) THEN "inseparable" ELSE Class(<<RAbs(p), RAbs(u)>>, 1)]
(* a pair of complex roots a +- b i cannot be split *)
Pair(a, b) == [Gz |-> a, Gx |-> RNeg(b), Fz |-> RNeg(b), Fx |-> RNeg(a), FZ |-> "0", C |-> "0", class |-> "inseparable"]
Pairs == {Pair(a, b) : a \in {"1/2", "-1/4", "1", "3/5"}, b \in {"1/2", "1", "4/5"}}
ASSUME Emit => \A y \in Pairs : PrintT("@@B " \o ToJson(y))
Systems == Emit => PrintT("@@B " \o ToJson(Line))
==============================================================================
