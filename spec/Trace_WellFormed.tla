-------------------------- MODULE Trace_WellFormed --------------------------
(* M04: recorded imports, against the rules. *)
EXTENDS TraceCore, WellFormed
VARIABLE first         \* what the witness model looked like before any refusal
E == Ev
TraceInit == TraceCoreInit /\ first = <<>>
Import ==
  /\ IsEvent("Import") /\ UNCHANGED first
  /\ Consume(LET f == Faults(E.file) IN
       IF f = {} THEN << <<"well-formed-models-are-accepted", E.outcome = "ok", <<E.outcome, E.how>> >> >>
       ELSE << <<"ill-formed-models-are-refused", E.outcome # "ok", <<f, E.how>> >> >>)
Replayed ==
  /\ IsEvent("Replay") /\ UNCHANGED first
  /\ Consume(<< <<"files-of-the-specification", (E.outcome = "ok") = E.accepted, <<E.outcome, E.accepted, E.what>> >> >>)
Witness ==
  /\ IsEvent("Witness")
  /\ first' = IF first = <<>> THEN <<E.look>> ELSE first
  /\ Consume(IF first = <<>> THEN << <<"witness-is-accepted", E.outcome = "ok", E.outcome>> >>
             ELSE << <<"refusals-leave-no-trace", E.outcome = "ok" /\ <<E.look>> = first, E.outcome>> >>)
TraceNext == Import \/ Replayed \/ Witness \/ (Stopped /\ UNCHANGED first)
==============================================================================
