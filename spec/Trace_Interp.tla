----------------------------- MODULE Trace_Interp -----------------------------
(* D01: recorded evaluations of decision rules.  The state is the rule being *)
(* evaluated; SetValues replaces its values.                                 *)
EXTENDS TraceCore, RuleEval
VARIABLE rule, rval   \* description of the rule; current values
TraceInit == TraceCoreInit /\ rule = <<>> /\ rval = <<>>
Tol == "1/1000000000"
E == Ev

MAt(k) == IF E.how = "is" /\ rule.kind = "grid" /\ rule.exo = "grid" THEN MNodeOf(rule, E.i)
          ELSE IF Len(E.m) = 0 THEN <<>> ELSE E.m[k]
Expected(k) == RuleValue(rule, rval, E.i, MAt(k), E.s[k])
Label == IF rule.kind = "grid" THEN rule.method \o "-interpolant" ELSE rule.kind \o "-rule"

Rule == /\ IsEvent("Rule")
        /\ rule' = Ev /\ rval' = IF Has(Ev, "values") THEN Ev.values ELSE <<>>
        /\ Consume(<< <<"rule-is-built", Ev.outcome = "ok", Ev.outcome>> >>)
SetValues == /\ IsEvent("SetValues")
             /\ rval' = Ev.values /\ UNCHANGED rule
             /\ Consume(<< <<"values-are-accepted", Ev.outcome = "ok", Ev.outcome>> >>)
Evaluate ==
  /\ IsEvent("Eval") /\ UNCHANGED <<rule, rval>>
  /\ Consume(IF rule.outcome # "ok" THEN <<>> ELSE
       IF E.outcome # "ok" THEN << <<"rule-is-evaluated", FALSE, <<E.how, E.outcome>> >> >>
       ELSE << <<"result-has-the-shape-of-the-arguments", E.rank = E.want /\ Len(E.out) = Len(E.s), <<E.how, E.rank, E.want>> >> >>
            \o (IF Len(E.out) # Len(E.s) THEN <<>> ELSE
            << <<Label, \A k \in 1..Len(E.s) : RuleAgrees(rule, rval, E.i, MAt(k), E.s[k], E.out[k], Tol), <<E.how, MapSeq(E.out[1], RShow), MapSeq(Expected(1), RShow)>> >> >>
            \o (IF Has(E, "given") THEN << <<"values-at-the-nodes", \A k \in 1..Len(E.s) : AllClose(E.out[k], E.given[k], Tol), E.how>> >> ELSE <<>>)))
Refused == /\ IsEvent("Refuse") /\ UNCHANGED <<rule, rval>>
           /\ Consume(<< <<"unsupported-request-is-refused", Ev.outcome # "ok", Ev.what>> >>)
StoppedI == Stopped /\ UNCHANGED <<rule, rval>>
TraceNext == Rule \/ SetValues \/ Evaluate \/ Refused \/ StoppedI
=============================================================================
