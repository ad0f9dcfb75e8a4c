------------------------------- MODULE RuleEval -------------------------------
(***************************************************************************)
(* The value of a decision rule.  A rule is a record                       *)
(*   kind : "grid", "constant", "taylor", "bitaylor", "custom"             *)
(*   grid : exo ("empty", "chain", "grid"), method, axes (or bounds and    *)
(*          sizes when uniform), exogenous bounds and sizes                *)
(* V holds, per exogenous node, the values at the endogenous nodes.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, Interp, DoloModel

AxesOf(r) == IF r.uniform THEN [k \in 1..Len(r.min) |-> [i \in 1..r.n[k] |-> Lin(r.min[k], r.max[k], r.n[k], i)]] ELSE r.axes
MAxesOf(r) == [k \in 1..Len(r.mmin) |-> [i \in 1..r.mn[k] |-> Lin(r.mmin[k], r.mmax[k], r.mn[k], i)]]
MNodeOf(r, i) == UniformNode(r.mmin, r.mmax, r.mn, i + 1)     \* i is 0-based
(* value at exogenous value m (or state i of a chain) and state s *)
RuleValue(r, V, i, m, s) ==
  CASE r.kind = "constant" -> r.x0
    [] r.kind = "taylor" -> Taylor(r.xbar, r.coefs, VSub(s, r.sbar))
    [] r.kind = "bitaylor" -> VAdd(VAdd(r.xbar, IF r.Cm = <<>> THEN "0" ELSE MatVec(r.Cm, VSub(m, r.mbar))), MatVec(r.Cs, VSub(s, r.sbar)))
    [] r.kind = "custom" -> Meaning(r.M, "arbitrage_lb", <<m, s, r.p>>)
    [] r.exo = "empty" -> Interpolate(r.method, AxesOf(r), V[1], s)
    [] r.exo = "chain" -> Interpolate(r.method, AxesOf(r), V[i + 1], s)
    [] OTHER -> Interpolate(r.method, MAxesOf(r) \o AxesOf(r), Flat(V), m \o s)
(* where the value is specified: a cubic spline only inside its grid *)
Specified(r, i, m, s) == \/ r.kind # "grid" \/ r.method # "cubic"
                         \/ Inside(AxesOf(r), s) /\ (r.exo = "grid" => Inside(MAxesOf(r), m))
RuleAgrees(r, V, i, m, s, got, tol) ==
  Specified(r, i, m, s) =>
    IF r.kind = "custom" THEN AllAgree(got, MeaningE(r.M, "arbitrage_lb", <<m, s, r.p>>), tol)
    ELSE LET e == RuleValue(r, V, i, m, s)
         IN Len(got) = Len(e) /\ \A k \in 1..Len(e) : (got[k] = "nan" /\ e[k] = "nan") \/ RClose(got[k], e[k], tol)
=============================================================================
