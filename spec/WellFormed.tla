----------------------------- MODULE WellFormed -----------------------------
(***************************************************************************)
(* Which model files are accepted (M04).                                   *)
(*                                                                         *)
(* A file is a record                                                      *)
(*   groups  : sequence of [g, names]                  (symbols)           *)
(*   defs    : sequence of [name, date, expr]          (definitions)       *)
(*   eqs     : sequence of [block, list], list a sequence of               *)
(*             [lhs, expr, comp]; lhs is <<>> or <<name, date>>,           *)
(*             comp is <<>> or <<name, date, lb, ub>>                      *)
(*   domain  : sequence of names, exo : sequence of [names, dim]           *)
(*   cal     : name -> expression (dates are ignored)                      *)
(* Faults(F) is the set of the rules it breaks.                            *)
(***************************************************************************)
EXTENDS DoloModel, FiniteSets
Names(F, g) == LET I == {i \in 1..Len(F.groups) : F.groups[i].g = g} IN IF I = {} THEN <<>> ELSE F.groups[CHOOSE i \in I : TRUE].names
HasGroup(F, g) == \E i \in 1..Len(F.groups) : F.groups[i].g = g
AllNames(F) == Flat([i \in 1..Len(F.groups) |-> F.groups[i].names])
SetOf(s) == {s[i] : i \in 1..Len(s)}
Variables(F) == UNION {SetOf(F.groups[i].names) : i \in {j \in 1..Len(F.groups) : F.groups[j].g # "parameters"}}
Params(F) == SetOf(Names(F, "parameters"))
RECURSIVE Leaves(_)
Leaves(e) == CASE e[1] = "num" -> {} [] e[1] \in {"var", "par"} -> {e}
               [] Len(e) = 2 -> Leaves(e[2]) [] OTHER -> Leaves(e[2]) \cup Leaves(e[3])

DeclaredOnce(F) == LET a == AllNames(F) IN Cardinality(SetOf(a)) = Len(a)

(* definitions: new names, at date t, in terms of the shocks, states, controls *)
(* and definitions above at date t, and of parameters                          *)
DefSet(F) == {F.defs[i].name : i \in 1..Len(F.defs)}
InSig(F, b, n, t) == \E j \in 1..Len(Signature[b]) : LET a == Signature[b][j] IN a[1] # "parameters" /\ a[2] = t /\ InSeq(Names(F, a[1]), n)
GoodDefs(F) == \A i \in 1..Len(F.defs) : LET d == F.defs[i] IN
  /\ d.date = 0 /\ d.name \notin SetOf(AllNames(F)) /\ \A j \in 1..(i - 1) : F.defs[j].name # d.name
  /\ \A l \in Leaves(d.expr) : IF l[1] = "par" THEN l[2] \in Params(F)
                               ELSE l[3] = 0 /\ (InSig(F, "auxiliary", l[2], 0) \/ \E j \in 1..(i - 1) : F.defs[j].name = l[2])

(* what the k-th equation of block b may use *)
Usable(F, b, k, l) ==
  IF l[1] = "par" THEN l[2] \in Params(F)
  ELSE \/ InSig(F, b, l[2], l[3])
       \/ /\ l[2] \in DefSet(F)
          /\ \E i, j \in 1..Len(Signature[b]) : Signature[b][i] = <<"states", l[3]>> /\ Signature[b][j] = <<"controls", l[3]>>
       \/ /\ b \in DOMAIN Target /\ l[3] = Target[b][2]
          /\ \E j \in 1..(k - 1) : j <= Len(Names(F, Target[b][1])) /\ Names(F, Target[b][1])[j] = l[2]
UsesAllowed(F) == \A i \in 1..Len(F.eqs) : LET q == F.eqs[i] IN q.block \in DOMAIN Signature =>
  \A k \in 1..Len(q.list) :
    /\ \A l \in Leaves(q.list[k].expr) : Usable(F, q.block, k, l)
    /\ (q.list[k].comp # <<>> => \A l \in Leaves(q.list[k].comp[3]) \cup Leaves(q.list[k].comp[4]) : Usable(F, "arbitrage_lb", 1, l))
KnownBlocks(F) == \A i \in 1..Len(F.eqs) : F.eqs[i].block \in DOMAIN Signature \ {"auxiliary", "arbitrage_lb", "arbitrage_ub"}
GroupsPresent(F) ==
  /\ HasGroup(F, "states")
  /\ (F.exo # <<>> => HasGroup(F, "exogenous"))
  /\ (F.defs # <<>> => \A j \in 1..Len(Signature.auxiliary) : HasGroup(F, Signature.auxiliary[j][1]))
  /\ \A i \in 1..Len(F.eqs) : LET bl == F.eqs[i].block IN
        bl \in DOMAIN Signature => ( /\ \A j \in 1..Len(Signature[bl]) : HasGroup(F, Signature[bl][j][1])
                                    /\ (bl \in DOMAIN Target => HasGroup(F, Target[bl][1])) )
(* one equation per target, in declaration order *)
Assigned(F) == \A i \in 1..Len(F.eqs) : LET q == F.eqs[i] IN q.block \in DOMAIN Target =>
  LET tg == Names(F, Target[q.block][1]) IN Len(q.list) = Len(tg) /\ \A k \in 1..Len(tg) : q.list[k].lhs = <<tg[k], Target[q.block][2]>>
OnePerControl(F) == \A i \in 1..Len(F.eqs) : F.eqs[i].block = "arbitrage" => Len(F.eqs[i].list) = Len(Names(F, "controls"))
Complements(F) == \A i \in 1..Len(F.eqs) : LET q == F.eqs[i] IN \A k \in 1..Len(q.list) :
  q.list[k].comp # <<>> => q.block = "arbitrage" /\ k <= Len(Names(F, "controls")) /\ q.list[k].comp[1] = Names(F, "controls")[k] /\ q.list[k].comp[2] = 0
DomainComplete(F) == F.domain = <<>> \/ SetOf(F.domain) \cap SetOf(Names(F, "states")) = {} \/ SetOf(Names(F, "states")) \subseteq SetOf(F.domain)
ShocksMatch(F) == F.exo = <<>> \/ ( /\ Flat([i \in 1..Len(F.exo) |-> F.exo[i].names]) = Names(F, "exogenous")
                                    /\ \A i \in 1..Len(F.exo) : F.exo[i].dim = Len(F.exo[i].names))
(* the calibration has a solution: closed and acyclic *)
Defaulted(F) == SetOf(AllNames(F)) \ (SetOf(Names(F, "values")) \cup SetOf(Names(F, "expectations")))     \* these have no default value
SystemOf(F) == [n \in DOMAIN F.cal \cup Defaulted(F) \cup DefSet(F) |->
   IF n \in DOMAIN F.cal THEN {l[2] : l \in Leaves(F.cal[n])}
   ELSE IF n \in DefSet(F) THEN LET d == F.defs[CHOOSE i \in 1..Len(F.defs) : F.defs[i].name = n] IN {l[2] : l \in Leaves(d.expr)}
   ELSE {}]
RECURSIVE Peel(_, _)
Peel(S, done) == LET m == {n \in DOMAIN S \ done : S[n] \subseteq done} IN IF m = {} THEN done ELSE Peel(S, done \cup m)
Calibrated(F) == LET S == Force(SystemOf(F)) IN Peel(S, {}) = DOMAIN S

Faults(F) == (IF DeclaredOnce(F) THEN {} ELSE {"symbol declared twice"})
        \cup (IF GoodDefs(F) THEN {} ELSE {"definition"})
        \cup (IF KnownBlocks(F) THEN {} ELSE {"unknown block"})
        \cup (IF GroupsPresent(F) THEN {} ELSE {"missing group"})
        \cup (IF Assigned(F) THEN {} ELSE {"left-hand sides"})
        \cup (IF OnePerControl(F) THEN {} ELSE {"number of arbitrage equations"})
        \cup (IF Complements(F) THEN {} ELSE {"complementarity"})
        \cup (IF UsesAllowed(F) THEN {} ELSE {"symbol or date"})
        \cup (IF DomainComplete(F) THEN {} ELSE {"domain"})
        \cup (IF ShocksMatch(F) THEN {} ELSE {"shocks"})
        \cup (IF Calibrated(F) THEN {} ELSE {"calibration"})
Accepted(F) == Faults(F) = {}
==============================================================================
