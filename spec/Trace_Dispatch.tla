--------------------------- MODULE Trace_Dispatch ---------------------------
(* U01: recorded histories of functions with several implementations, against *)
(* Dispatch.                                                                  *)
EXTENDS TraceCore, Dispatch
VARIABLES lat,     \* the classes of the scenario: [sub, mro]
          reg,     \* what is registered
          preds    \* functions with predicates, oldest first: [key, fn, ok: name -> accepted values]
E == Ev
dv == <<lat, reg, preds>>
SetOf(s) == {s[i] : i \in 1..Len(s)}
TraceInit == TraceCoreInit /\ lat = [sub |-> <<>>, mro |-> <<>>] /\ reg = <<>> /\ preds = <<>>
Lattice == /\ IsEvent("Classes") /\ lat' = [sub |-> [x \in DOMAIN E.sub |-> SetOf(E.sub[x])], mro |-> E.mro] /\ reg' = <<>> /\ preds' = <<>> /\ Consume(<<>>)
(* sigs: a pending definition may bring several signatures at once *)
RECURSIVE SetAll(_, _)
SetAll(r, s) == IF s = <<>> THEN r ELSE SetAll(Set(r, s[1][1], s[1][2]), Tail(s))
Registered ==
  /\ IsEvent("Register") /\ UNCHANGED <<lat, preds>> /\ reg' = SetAll(reg, E.sigs)
  /\ Consume(<< <<"implementations-are-registered", E.outcome = "ok", <<E.outcome, E.how>> >>,
                <<"registering-returns-the-definition", E.outcome # "ok" \/ E.same, E.how>> >>)
Removed ==
  /\ IsEvent("Remove") /\ UNCHANGED <<lat, preds>>
  /\ reg' = IF E.sig \in DOMAIN reg THEN Unset(reg, E.sig) ELSE reg
  /\ Consume(IF E.sig \in DOMAIN reg THEN << <<"implementations-are-removed", E.outcome = "ok", E.outcome>> >>
             ELSE << <<"what-is-not-registered-is-not-removed", E.outcome = "raised:KeyError", <<E.outcome, E.sig>> >> >>)
Called ==
  /\ IsEvent("Call") /\ UNCHANGED dv
  /\ LET R == Resolve(lat.sub, lat.mro, reg, E.sig)
     IN Consume(IF R = {} THEN << <<"undecided-calls-are-refused", E.outcome = "raised:DispatchError", <<E.outcome, E.got, E.sig, E.how>> >> >>
                ELSE << <<"calls-are-dispatched", E.outcome = "ok", <<E.outcome, E.sig, E.how>> >>,
                        <<"most-specific-implementation-runs", E.outcome # "ok" \/ E.got \in R, <<E.got, R, E.sig, E.how>> >>,
                        <<"arguments-reach-the-implementation", E.outcome # "ok" \/ E.passed, <<E.sig, E.how>> >> >>)
(* functions which dispatch on predicates: the last one registered that accepts *)
At(k) == {i \in 1..Len(preds) : preds[i].key = k}
Offered ==
  /\ IsEvent("Offer") /\ UNCHANGED <<lat, reg>>
  /\ LET p == [key |-> E.key, fn |-> E.fn, ok |-> E.ok]
     IN preds' = IF E.first THEN <<p>> ELSE IF At(E.key) # {} THEN [i \in 1..Len(preds) |-> IF i \in At(E.key) THEN p ELSE preds[i]] ELSE Append(preds, p)
  /\ Consume(<< <<"implementations-are-registered", E.outcome = "ok", <<E.outcome, "overload">> >> >>)
Fits(p, args) == \A n \in DOMAIN p.ok : \E i \in 1..Len(args) : args[i][1] = n /\ args[i][2] \in SetOf(p.ok[n])
Asked ==
  /\ IsEvent("Ask") /\ UNCHANGED dv
  /\ LET G == {i \in 1..Len(preds) : Fits(preds[i], E.args)}
     IN Consume(IF G = {} THEN << <<"undecided-calls-are-refused", E.outcome = "raised:DispatchError", <<E.outcome, E.args>> >> >>
                ELSE << <<"calls-are-dispatched", E.outcome = "ok", <<E.outcome, E.args>> >>,
                        <<"last-accepting-implementation-runs", E.outcome # "ok" \/ E.got = preds[CHOOSE i \in G : \A j \in G : j <= i].fn, <<E.got, E.args>> >>,
                        <<"arguments-reach-the-implementation", E.outcome # "ok" \/ E.passed, <<E.args, "overload">> >> >>)
TraceNext == Lattice \/ Registered \/ Removed \/ Called \/ Offered \/ Asked \/ (Stopped /\ UNCHANGED dv)
==============================================================================
