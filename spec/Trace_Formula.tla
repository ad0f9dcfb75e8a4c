---------------------------- MODULE Trace_Formula ----------------------------
(* Q01: recorded evaluations of formulas, against their meaning. *)
EXTENDS TraceCore, Formula
E == Ev
TraceInit == TraceCoreInit
Tol == "1/100000000000"
RowClose(g, e) == (g = "nan" /\ e = "nan") \/ RClose(g, e, Tol)
Formula1 ==
  /\ IsEvent("Formula")
  /\ Consume(
      IF ~ (IF E.notable THEN ~ OnRows(E.e) /\ Names(E.e) \subseteq DOMAIN E.ctx ELSE WellDefined(E.e, E.T, E.ctx))
      THEN << <<"undefined-names-are-refused", E.outcome # "ok", E.text>> >>
      ELSE IF E.outcome # "ok" THEN << <<"well-formed-formulas-are-evaluated", FALSE, <<E.outcome, E.text>> >> >>
      ELSE << <<"arguments-are-left-unchanged", E.unchanged, E.text>> >> \o
        (IF OnRows(E.e)
         THEN << <<"one-value-per-row", E.kind = "series" /\ Len(E.value) = Len(E.T.index) /\ E.index = E.T.index, <<E.kind, E.text>> >>,
                 <<"each-row-is-the-formula-at-that-date", LET w == Series(E.e, E.T, E.ctx) IN
                     Len(E.value) = Len(w) /\ \A r \in 1..Len(w) : RowClose(E.value[r], w[r]), <<E.text, E.value>> >> >>
         ELSE << <<"undated-formulas-are-constants", E.kind = "number" /\ RowClose(E.value, Row(E.e, E.T, E.ctx, 1)), <<E.text, E.value>> >> >>))
Replayed == /\ IsEvent("Replay")
  /\ Consume(<< <<"formulas-of-the-specification-are-evaluated", E.outcome = "ok" /\ Len(E.value) = Len(E.b.v) /\
       \A r \in 1..Len(E.b.v) : RowClose(E.value[r], E.b.v[r]), <<E.outcome, E.text>> >> >>)
TraceNext == Formula1 \/ Replayed \/ Stopped
===============================================================================
