----------------------------- MODULE Trace_Memo -----------------------------
(* C01: recorded histories of cached functions, against Memo. *)
EXTENDS TraceCore, Memo
VARIABLE dict      \* what the dictionary on disk holds: key -> value
E == Ev
tv == <<mem, disk, dict>>
TraceInit == TraceCoreInit /\ MemoInit /\ dict = <<>>
Begin == /\ IsEvent("Begin") /\ mem' = {} /\ disk' = {} /\ dict' = <<>> /\ Consume(<<>>)
Value == E.fn \o E.arg
Called ==
  /\ IsEvent("Call") /\ UNCHANGED dict
  /\ LET kept == Kept(E.kind, E.fn, E.arg)
         raised == E.raises /\ ~ kept
     IN /\ Call(E.kind, E.fn, E.arg, E.keeps /\ ~ raised)
        /\ Consume(
            IF raised THEN << <<"errors-of-the-function-reach-the-caller", E.outcome = "raised:Planned", <<E.outcome, E.fn, E.arg>> >>,
                              <<"evaluated-once", E.evals = 1, <<E.evals, E.fn, E.arg>> >> >>
            ELSE << <<"calls-complete", E.outcome = "ok", <<E.outcome, E.fn, E.arg>> >>,
                    <<"result-is-that-of-the-function", E.outcome # "ok" \/ E.got = Value, <<E.got, E.fn, E.arg>> >> >> \o
              (IF kept THEN << <<"kept-results-are-not-computed-again", E.evals = 0, <<E.evals, E.fn, E.arg>> >> >>
               ELSE << <<"evaluated-once", E.evals = 1, <<E.evals, E.fn, E.arg>> >> >>))
Crashed == /\ IsEvent("Crash") /\ UNCHANGED dict /\ Restart /\ Consume(<< <<"crash-happened-while-saving", E.happened, "">> >>)
Restarted == IsEvent("Restart") /\ UNCHANGED dict /\ Restart /\ Consume(<<>>)
Cleared == IsEvent("Clear") /\ UNCHANGED dict /\ (IF E.fn = "" THEN ClearAll ELSE ClearFn(E.fn)) /\ Consume(<< <<"clearing-completes", E.outcome = "ok", E.outcome>> >>)
Damaged == IsEvent("Damage") /\ UNCHANGED dict /\ DamageAll /\ Consume(<<>>)
Put == /\ IsEvent("Put") /\ UNCHANGED <<mem, disk>>
       /\ dict' = IF E.outcome = "ok" THEN [k \in DOMAIN dict \cup {E.arg} |-> IF k = E.arg THEN E.value ELSE dict[k]] ELSE dict
       /\ Consume(<< <<"values-are-stored", E.outcome = "ok", <<E.outcome, E.arg>> >> >>)
Get == /\ IsEvent("Get") /\ UNCHANGED tv
       /\ Consume(<< <<"stored-values-are-found", E.outcome = "ok" /\ E.got = (IF E.arg \in DOMAIN dict THEN dict[E.arg] ELSE "None"), <<E.outcome, E.got, E.arg>> >> >>)
DictDamaged == IsEvent("DictDamage") /\ UNCHANGED <<mem, disk>> /\ dict' = <<>> /\ Consume(<<>>)
TraceNext == Begin \/ Called \/ Crashed \/ Restarted \/ Cleared \/ Damaged \/ Put \/ Get \/ DictDamaged \/ (Stopped /\ UNCHANGED tv)
==============================================================================
