----------------------------- MODULE MC_Formula -----------------------------
(* All formulas x(a) op (y(b) op' p) over a table of four rows: shifting a    *)
(* formula shifts its values; a value is missing exactly where a row it       *)
(* reads is.  Emit: they are evaluated by the code.                           *)
EXTENDS Formula, TLC, Json
CONSTANT Emit
VARIABLES a, b, o1, o2, sq
Init == /\ a \in -2..2 /\ b \in -2..2 /\ o1 \in {"add", "sub", "mul", "div"} /\ o2 \in {"add", "sub", "mul", "div"} /\ sq \in {"x", "neg", "pow"}
Next == UNCHANGED <<a, b, o1, o2, sq>>
T == [cols |-> [x |-> <<"1", "2", "4", "9">>, y |-> <<"3", "-5", "1/2", "7">>], index |-> <<"0", "1", "2", "3">>]
Ctx == [p |-> "3/4", x |-> "100"]
L == <<"var", "x", a>>
X == CASE sq = "x" -> L [] sq = "neg" -> <<"neg", L>> [] OTHER -> <<"pow", L, <<"num", "2">>>>
F == <<o1, X, <<o2, <<"var", "y", b>>, <<"par", "p">>>>>>
V == Series(F, T, Ctx)
Missing == \A r \in 1..4 : (V[r] = "nan") <=> ~ (r + a \in 1..4 /\ r + b \in 1..4)
Shifted == \A h \in -1..1 : LET W == Series(Later(F, h), T, Ctx)
             IN \A r \in 1..4 : (r + h \in 1..4 /\ V[r + h] # "nan") => W[r] = V[r + h]
Described == WellDefined(F, T, Ctx) /\ OnRows(F) /\ Dated(F) = {"x", "y"} /\ Names(F) = {"p"}
Formulas1 == Emit => PrintT("@@B " \o ToJson([e |-> F, T |-> T, ctx |-> Ctx, v |-> V]))
==============================================================================
