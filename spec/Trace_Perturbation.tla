-------------------------- MODULE Trace_Perturbation --------------------------
(* X01: recorded first-order solutions.                                         *)
EXTENDS TraceCore, Perturbation
VARIABLES mod, last
E == Ev
M == Trace[mod]
TraceInit == TraceCoreInit /\ mod = 0 /\ last = 0
Model == /\ IsEvent("Model") /\ mod' = l /\ UNCHANGED last
         /\ Consume(<< <<"model-is-accepted", E.outcome = "ok", E.outcome>> >>)
Small(A) == RLt(SupNorm(Square(A, 9)), "1/1000")
Large(A) == RLt("1000", SupNorm(Square(A, 9)))
Scale(Y, C) == RMul(RAdd("1", MaxEntry(C)), RAdd("1", RMul(MaxEntry(C), RMul(RAdd("1", MaxEntry(Y.FX)), RAdd("1", MaxEntry(Y.Gx))))))
Judge(Y, C) ==
  LET P == Force(Dynamics(Y, C))
      W == Force(Off(Y, C))
      gap == Force(Gap(Y, C))
      clear == (Small(P) \/ Large(P)) /\ W # <<>> /\ (Small(W) \/ Large(W))
  IN << <<"rule-solves-the-linearized-model", RLe(MaxEntry(gap), RMul(Scale(Y, C), "1/10000000")), <<E.how, MaxEntry(gap)>> >> >> \o
     (IF ~ clear THEN <<>> ELSE
      << <<"stability-is-reported", E.stable = Small(P), <<E.how, E.stable>> >>,
         <<"uniqueness-is-reported", E.unique = Small(W), <<E.how, E.unique>> >>,
         <<"several-or-no-stable-solutions-are-announced", E.warned = ~ (Small(P) /\ Small(W)), E.how>>,
         <<"smallest-roots-are-selected", RLt(RMul(SupNorm(Square(P, 9)), SupNorm(Square(W, 9))), "1"), E.how>> >>)
(* E.roots: moduli of the roots the model was built from, when known *)
Known == E.roots # <<>>
N == Len(M.symbols.states) + Len(E.A)
Perturb ==
  /\ IsEvent("Perturb") /\ UNCHANGED mod /\ last' = l
  /\ Consume(
       IF E.supported = FALSE THEN << <<"unsupported-shocks-are-refused", E.outcome # "ok", E.how>> >>
       ELSE IF Known /\ ~ Separable(E.roots, N) THEN << <<"undefined-solution-is-refused", E.outcome # "ok", E.roots>> >>
       ELSE IF E.outcome # "ok" /\ ~ E.sure THEN << <<"refused-when-the-roots-do-not-determine-the-controls", TRUE>> >>
       ELSE IF E.outcome # "ok" THEN << <<"solves", FALSE, <<E.outcome, E.how, E.roots>> >> >>
       ELSE LET Y == Force(System(M, E.A, E.m, E.s, E.x))
            IN << <<"passes-through-the-steady-state", AllClose(E.at, E.x, "1/1000000000000"), E.how>>,
                  <<"one-coefficient-per-control-and-state", MatShape(E.C, Len(M.symbols.controls), N)>>,
                  <<"solves", TRUE>> >> \o Judge(Y, E.C) \o
               (IF ~ Known THEN <<>> ELSE
                << <<"roots-are-classified", E.stable = (Class(E.roots, N) # "none") /\ E.unique = (Class(E.roots, N) # "many"), <<E.roots, E.stable, E.unique>> >> >>))
(* same call with other options                                                 *)
Same == /\ IsEvent("Same") /\ UNCHANGED <<mod, last>>
        /\ Consume(<< <<"options-of-display-change-nothing", E.outcome = "ok" /\ MatClose(E.C, Trace[last].C, "1/1000000000000")>> >>)
(* a system of MC_Perturbation, solved by the real code *)
System1 ==
  /\ IsEvent("System") /\ UNCHANGED <<mod, last>>
  /\ Consume(IF E.b.class = "inseparable" THEN << <<"undefined-solution-is-refused", E.outcome # "ok", E.b>> >>
     ELSE << <<"systems-of-the-specification-are-solved",
               E.outcome = "ok" /\ RClose(E.C[1][1], E.b.C, "1/1000000") /\ E.stable = (E.b.class # "none") /\ E.unique = (E.b.class # "many"),
               <<E.outcome, E.b>> >> >>)
StoppedS == Stopped /\ UNCHANGED <<mod, last>>
TraceNext == Model \/ Perturb \/ Same \/ System1 \/ StoppedS
===============================================================================
