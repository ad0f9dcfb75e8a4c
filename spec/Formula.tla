------------------------------- MODULE Formula -------------------------------
(***************************************************************************)
(* The meaning of a formula over a table of time series (Q01).             *)
(*                                                                         *)
(* A formula is an expression whose leaves are numbers, names without a    *)
(* date (valued by the context), dated names <<"var", name, h>> (column    *)
(* `name`, h rows below the current one) and <<"time">> (the index).       *)
(* A table is [cols |-> name -> sequence, index |-> sequence].             *)
(***************************************************************************)
EXTENDS DoloModel
Cell(T, n, r) == IF r \in 1..Len(T.index) THEN T.cols[n][r] ELSE "nan"
RECURSIVE Row(_, _, _, _), Dated(_), Names(_), OnRows(_)
Row(e, T, ctx, r) ==
  CASE e[1] = "num" -> e[2]
    [] e[1] = "par" -> ctx[e[2]]
    [] e[1] = "time" -> T.index[r]
    [] e[1] = "var" -> Cell(T, e[2], r + e[3])
    [] Len(e) = 2 -> Op1(e[1], Row(e[2], T, ctx, r))
    [] OTHER -> Op2(e[1], Row(e[2], T, ctx, r), Row(e[3], T, ctx, r))
(* dated names, plain names, and whether the value varies over rows *)
Dated(e) == CASE e[1] = "var" -> {e[2]} [] e[1] \in {"num", "par", "time"} -> {}
              [] Len(e) = 2 -> Dated(e[2]) [] OTHER -> Dated(e[2]) \cup Dated(e[3])
Names(e) == CASE e[1] = "par" -> {e[2]} [] e[1] \in {"num", "var", "time"} -> {}
              [] Len(e) = 2 -> Names(e[2]) [] OTHER -> Names(e[2]) \cup Names(e[3])
OnRows(e) == CASE e[1] \in {"var", "time"} -> TRUE [] e[1] \in {"num", "par"} -> FALSE
              [] Len(e) = 2 -> OnRows(e[2]) [] OTHER -> OnRows(e[2]) \/ OnRows(e[3])
WellDefined(e, T, ctx) == Dated(e) \subseteq DOMAIN T.cols /\ Names(e) \subseteq DOMAIN ctx
Series(e, T, ctx) == [r \in 1..Len(T.index) |-> Row(e, T, ctx, r)]
(* the same formula h periods later *)
RECURSIVE Later(_, _)
Later(e, h) == CASE e[1] = "var" -> <<"var", e[2], e[3] + h>> [] e[1] \in {"num", "par", "time"} -> e
              [] Len(e) = 2 -> <<e[1], Later(e[2], h)>> [] OTHER -> <<e[1], Later(e[2], h), Later(e[3], h)>>
==============================================================================
