--------------------------- MODULE Trace_Functions ---------------------------
(* M03: compiled functions compute the written equations (DoloModel.Meaning) *)
EXTENDS TraceCore, DoloModel
VARIABLE at      \* line of the model under evaluation
M == Trace[at]
Tol == "1/1000000000"
DTol == "1/10000"

TraceInit == TraceCoreInit /\ at = 0

Import == /\ IsEvent("Model")
          /\ at' = l
          /\ Consume(<< <<"accepts-well-formed-model", Ev.outcome = "ok", Ev.outcome>>,
                        <<"offers-its-blocks", Ev.outcome # "ok" \/ {Ev.functions[i] : i \in 1..Len(Ev.functions)} = Blocks(Ev)>>,
                        <<"bounds-none-iff-unwritten", Ev.outcome # "ok" \/ (Ev.has_bounds <=> Len(Ev.bounds) > 0)>> >>)

(* one point *)
Call == /\ IsEvent("Call")
        /\ UNCHANGED at
        /\ Consume(
             IF Ev.outcome # "ok" THEN << <<"function-returns", FALSE, Ev.outcome>> >>
             ELSE LET f == Force(MeaningE(M, Ev.fun, Ev.args))
                  IN << <<Ev.fun \o "-number-of-values", Len(Ev.out) = Len(f), <<Len(Ev.out), Len(f)>> >>,
                        <<Ev.fun \o "-value", Len(Ev.out) = Len(f) => AllAgree(Ev.out, f, Tol),
                           <<"got", MapSeq(Ev.out, RShow), "expected", MapSeq(f, LAMBDA z : RShow(z[1]))>> >> >>)

(* a stack of points: row i takes row i of the stacked arguments, and the    *)
(* only row of the others                                                    *)
Row(a, i) == IF Len(a) = 1 THEN a[1] ELSE a[i]
Stack == /\ IsEvent("Stack")
         /\ UNCHANGED at
         /\ Consume(
              IF Ev.outcome # "ok" THEN << <<"function-returns", FALSE, Ev.outcome>> >>
              ELSE << <<"stack-shape", MatShape(Ev.out, Ev.n, Len(Formulas(M, Ev.fun)))>>,
                      <<"stack-is-pointwise", MatShape(Ev.out, Ev.n, Len(Formulas(M, Ev.fun))) =>
                          \A i \in 1..Ev.n :
                             AllAgree(Ev.out[i], MeaningE(M, Ev.fun, [j \in 1..Len(Ev.args) |-> Row(Ev.args[j], i)]), Tol)>>,
                      <<"out-argument-is-filled", Ev.same>> >>)

(* diff=True: value, then one Jacobian per argument but the parameters *)
Diff == /\ IsEvent("Diff")
        /\ UNCHANGED at
        /\ Consume(
             IF Ev.outcome # "ok" THEN << <<"function-returns", FALSE, Ev.outcome>> >>
             ELSE LET n == Len(Formulas(M, Ev.fun)) IN
                  << <<"derivative-value", AllAgree(Ev.out, MeaningE(M, Ev.fun, Ev.args), Tol)>>,
                     <<"derivative-shape", Len(Ev.jac) = Len(Ev.args) - 1 /\
                          \A j \in 1..Len(Ev.jac) : MatShape(Ev.jac[j], n, Len(Ev.args[j]))>>,
                     <<"derivative", (Len(Ev.jac) = Len(Ev.args) - 1 /\
                          \A j \in 1..Len(Ev.jac) : MatShape(Ev.jac[j], n, Len(Ev.args[j]))) =>
                          \A j \in 1..Len(Ev.jac) : \A i \in 1..n : \A c \in 1..Len(Ev.args[j]) :
                             CloseN(Ev.jac[j][i][c], Derivative(M, Ev.fun, Ev.args, i, j, c),
                                    RMul(DTol, RAdd("1", RAbs(Ev.out[i]))))>> >>)

TraceNext == Import \/ Call \/ Stack \/ Diff \/ (Stopped /\ UNCHANGED at)
=============================================================================
