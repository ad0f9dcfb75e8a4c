------------------------------ MODULE Foresight ------------------------------
(***************************************************************************)
(* Perfect foresight.  Given shocks m_0..m_T and a state s_0, a path of    *)
(* states and controls such that                                           *)
(*    s_t = g(m_{t-1}, s_{t-1}, x_{t-1}, m_t)                t = 1..T       *)
(*    f(m_t, s_t, x_t, m_{t+1}, s_{t+1}, x_{t+1})  _|_  lb <= x_t <= ub     *)
(* and, in the last period, controls which do not change any more (or      *)
(* which are optimal if nothing changes any more).                         *)
(***************************************************************************)
EXTENDS SteadyState, NCP
(* a series lasts for ever at its last value; absent, the shock stays where   *)
(* it is calibrated                                                           *)
SeriesAt(v, calib, t) == IF v = <<>> THEN calib ELSE v[IF t + 1 <= Len(v) THEN t + 1 ELSE Len(v)]
ShocksOf(series, calib, T) == [t \in 1..(T + 1) |-> [k \in 1..Len(calib) |-> SeriesAt(series[k], calib[k], t - 1)]]
(* rows: m, s, x per date; distance to the conditions at each date             *)
NextStateOk(M, p, r, r1, tol) == AllAgree(r1.s, MeaningE(M, "transition", <<r.m, r.s, r.x, r1.m, p>>), tol)
OptimalOk(M, p, lb, ub, r, r1, tol) ==
  LET F == MeaningE(M, "arbitrage", <<r.m, r.s, r.x, r1.m, r1.s, r1.x, p>>)
  IN \A k \in 1..Len(r.x) :
        \/ F[k][2] = "inf"
        \/ (RFin(r.x[k]) /\ RFin(F[k][1]) /\ RLe(RAbs(Natural(F[k][1], lb[k], ub[k], r.x[k])), RAdd(F[k][2], RMul(tol, RMax("1", RAbs(F[k][1]))))))
SteadyOk(M, p, r, tol) ==
  LET R == ResidualsE(M, r.m, r.s, r.x, p) ok(e) == e[2] = "inf" \/ RLe(RAbs(e[1]), RAdd(e[2], tol))
  IN (\A k \in 1..Len(R.transition) : ok(R.transition[k])) /\ (\A k \in 1..Len(R.arbitrage) : ok(R.arbitrage[k]))
===============================================================================
