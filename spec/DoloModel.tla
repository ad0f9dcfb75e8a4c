------------------------------ MODULE DoloModel ------------------------------
(***************************************************************************)
(* The meaning of a model file.                                            *)
(*                                                                         *)
(* A model is a record                                                     *)
(*   symbols : group -> sequence of names                                  *)
(*   defs    : sequence of [name, expr]          (definitions, date t)     *)
(*   blocks  : block -> sequence of [lhs, rhs]   (lhs absent: [rhs])       *)
(*   bounds  : sequence of [lb, ub] expressions, one per control, or <<>>  *)
(*                                                                         *)
(* An expression is <<"num", q>>, <<"var", name, date>>, <<"par", name>>,  *)
(* <<op, e>> or <<op, e1, e2>>.                                            *)
(*                                                                         *)
(* A block is a function of positional arguments; each argument carries    *)
(* one group of symbols at one date.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat

Signature ==
  [ arbitrage          |-> << <<"exogenous", 0>>, <<"states", 0>>, <<"controls", 0>>,
                              <<"exogenous", 1>>, <<"states", 1>>, <<"controls", 1>>,
                              <<"parameters", 0>> >>,
    arbitrage_lb       |-> << <<"exogenous", 0>>, <<"states", 0>>, <<"parameters", 0>> >>,
    arbitrage_ub       |-> << <<"exogenous", 0>>, <<"states", 0>>, <<"parameters", 0>> >>,
    transition         |-> << <<"exogenous", -1>>, <<"states", -1>>, <<"controls", -1>>,
                              <<"exogenous", 0>>, <<"parameters", 0>> >>,
    value              |-> << <<"exogenous", 0>>, <<"states", 0>>, <<"controls", 0>>, <<"values", 0>>,
                              <<"exogenous", 1>>, <<"states", 1>>, <<"controls", 1>>, <<"values", 1>>,
                              <<"parameters", 0>> >>,
    felicity           |-> << <<"exogenous", 0>>, <<"states", 0>>, <<"controls", 0>>, <<"parameters", 0>> >>,
    auxiliary          |-> << <<"exogenous", 0>>, <<"states", 0>>, <<"controls", 0>>, <<"parameters", 0>> >>,
    expectation        |-> << <<"exogenous", 1>>, <<"states", 1>>, <<"controls", 1>>, <<"parameters", 0>> >>,
    direct_response    |-> << <<"exogenous", 0>>, <<"states", 0>>, <<"expectations", 0>>, <<"parameters", 0>> >>,
    half_transition    |-> << <<"exogenous", -1>>, <<"poststates", -1>>, <<"exogenous", 0>>, <<"parameters", 0>> >>,
    direct_response_egm|-> << <<"exogenous", 0>>, <<"poststates", 0>>, <<"expectations", 0>>, <<"parameters", 0>> >>,
    reverse_state      |-> << <<"exogenous", 0>>, <<"poststates", 0>>, <<"controls", 0>>, <<"parameters", 0>> >>,
    arbitrage_exp      |-> << <<"states", 0>>, <<"controls", 0>>, <<"parameters", 0>> >> ]

(* residual-type blocks return rhs - lhs, the others the right-hand side *)
Residual == {"arbitrage", "arbitrage_exp"}

IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x

DefIndex(M, n) == IF \E i \in 1..Len(M.defs) : M.defs[i].name = n
                  THEN CHOOSE i \in 1..Len(M.defs) : M.defs[i].name = n ELSE 0

(* the value of symbol n at date t, given positional arguments `args` with   *)
(* signature `sig`; nan if the block does not receive it                     *)
ArgVal(M, b, args, n, t) ==
  LET sig == Signature[b]
      J == {j \in 1..Len(sig) : sig[j][2] = t /\ sig[j][1] # "parameters" /\ InSeq(M.symbols[sig[j][1]], n)}
  IN IF J = {} THEN "nan"
     ELSE LET j == CHOOSE k \in J : TRUE IN args[j][IndexOf(M.symbols[sig[j][1]], n)]
Received(M, b, n, t) ==
  \E j \in 1..Len(Signature[b]) : /\ Signature[b][j][2] = t /\ Signature[b][j][1] # "parameters"
                                  /\ InSeq(M.symbols[Signature[b][j][1]], n)
ParVal(M, b, args, n) ==
  LET sig == Signature[b]
      J == {j \in 1..Len(sig) : sig[j][1] = "parameters"}
  IN IF J = {} \/ ~ InSeq(M.symbols.parameters, n) THEN "nan"
     ELSE LET j == CHOOSE k \in J : TRUE IN args[j][IndexOf(M.symbols.parameters, n)]

Op1(o, a) == CASE o = "neg" -> RNeg(a) [] o = "exp" -> RExp(a) [] o = "log" -> RLog(a) [] OTHER -> "nan"
Op2(o, a, b) == CASE o = "add" -> RAdd(a, b) [] o = "sub" -> RSub(a, b) [] o = "mul" -> RMul(a, b)
                  [] o = "div" -> RDiv(a, b) [] o = "pow" -> RPow(a, b) [] OTHER -> "nan"

(* assignment-type blocks define these symbols; the formulas of one block   *)
(* may use the symbols defined above them in the same block                 *)
Target ==
  [ transition |-> <<"states", 0>>, value |-> <<"values", 0>>, felicity |-> <<"rewards", 0>>,
    expectation |-> <<"expectations", 0>>, direct_response |-> <<"controls", 0>>,
    half_transition |-> <<"states", 0>>, direct_response_egm |-> <<"controls", 0>>,
    reverse_state |-> <<"states", 0>> ]
TargetIndex(M, b, n, t) ==
  IF b \in DOMAIN Target /\ Target[b][2] = t /\ InSeq(M.symbols[Target[b][1]], n)
  THEN IndexOf(M.symbols[Target[b][1]], n) ELSE 0

(* value of expression e shifted by `sh` periods: a definition is replaced   *)
(* by its formula at the date it is used                                     *)
RECURSIVE Eval(_, _, _, _, _)
Eval(M, b, args, e, sh) ==
  CASE e[1] = "num" -> e[2]
    [] e[1] = "par" -> ParVal(M, b, args, e[2])
    [] e[1] = "var" -> LET d == DefIndex(M, e[2])
                       IN IF d # 0 THEN Eval(M, b, args, M.defs[d].expr, sh + e[3])
                          ELSE IF Received(M, b, e[2], sh + e[3]) THEN ArgVal(M, b, args, e[2], sh + e[3])
                          ELSE LET k == TargetIndex(M, b, e[2], sh + e[3])
                               IN IF k # 0 /\ k <= Len(M.blocks[b]) THEN Eval(M, b, args, M.blocks[b][k].rhs, 0)
                                  ELSE "nan"
    [] Len(e) = 2 -> Op1(e[1], Eval(M, b, args, e[2], sh))
    [] OTHER -> Op2(e[1], Eval(M, b, args, e[2], sh), Eval(M, b, args, e[3], sh))

(* number of outputs and formulas of a block *)
Formulas(M, b) ==
  CASE b = "arbitrage_lb" -> [i \in 1..Len(M.bounds) |-> M.bounds[i].lb]
    [] b = "arbitrage_ub" -> [i \in 1..Len(M.bounds) |-> M.bounds[i].ub]
    [] b = "auxiliary"    -> [i \in 1..Len(M.defs) |-> M.defs[i].expr]
    [] OTHER -> [i \in 1..Len(M.blocks[b]) |->
                   LET q == M.blocks[b][i]
                   IN IF b \in Residual /\ "lhs" \in DOMAIN q THEN <<"sub", q.rhs, q.lhs>> ELSE q.rhs]

Meaning(M, b, args) ==
  LET f == Formulas(M, b) IN [i \in 1..Len(f) |-> Eval(M, b, args, f[i], 0)]

(* The same formulas in floating point: <<exact value, bound on the error an   *)
(* evaluation in doubles can make>> (running error analysis); the bound is     *)
(* "inf" as soon as an intermediate result leaves the range of doubles.        *)
Ulp == "1/140737488355328"                      \* 2^-47
Huge == RPow("10", "300")
Fe(v, e) == IF v = "nan" THEN <<"nan", "0">>
            ELSE IF ~ RFin(v) THEN <<v, IF e = "0" THEN "0" ELSE "inf">>
            ELSE IF e = "inf" \/ RLt(Huge, RAbs(v)) THEN <<RRound(v), "inf">>
            ELSE <<v, RRound(RAdd(e, RMul(Ulp, RAbs(v))))>>
Err1(o, a) ==
  LET v == Op1(o, a[1])
  IN CASE o = "neg" -> <<v, a[2]>>
       [] o = "exp" -> Fe(v, IF a[2] = "inf" \/ RLt("1/4", a[2]) THEN "inf" ELSE RMul(RAbs(v), RMul("2", a[2])))
       [] o = "log" -> Fe(v, IF a[2] = "inf" \/ RLe(RAbs(a[1]), RMul("2", a[2])) THEN "inf" ELSE RMul("2", RDiv(a[2], RAbs(a[1]))))
       [] OTHER -> <<"nan", "0">>
Err2(o, a, b) ==
  LET v == Op2(o, a[1], b[1])
      A == RAbs(a[1]) B == RAbs(b[1])
  IN IF o = "pow" THEN (IF a[2] = "inf" \/ b[2] = "inf" THEN <<v, "inf">>
                        ELSE Fe(v, IF a[1] = "nan" \/ b[1] = "nan" THEN "0"
                                   ELSE IF REq(B, "0") THEN "0"
                                   ELSE IF RLe(A, RMul("2", a[2])) THEN (IF REq(a[2], "0") THEN "0" ELSE "inf")
                                   ELSE RMul(RAbs(v), RAdd(RMul(RMul("4", B), RDiv(a[2], A)), RMul("4", RMul(b[2], RAbs(RLog(A))))))))
     ELSE IF v = "nan" \/ ~ RFin(a[1]) \/ ~ RFin(b[1]) \/ a[2] = "inf" \/ b[2] = "inf" THEN <<v, IF a[2] = "inf" \/ b[2] = "inf" THEN "inf" ELSE "0">>
     ELSE CASE o \in {"add", "sub"} -> Fe(v, RAdd(a[2], b[2]))
            [] o = "mul" -> Fe(v, RAdd(RMul(A, b[2]), RMul(RAdd(B, b[2]), a[2])))
            [] o = "div" -> IF RLe(B, RMul("2", b[2])) THEN <<v, "inf">>
                            ELSE Fe(v, RMul("2", RAdd(RDiv(a[2], B), RMul(RAbs(v), RDiv(b[2], B)))))
            [] OTHER -> <<v, "inf">>
RECURSIVE EvalE(_, _, _, _, _)
EvalE(M, b, args, e, sh) ==
  CASE e[1] = "num" -> <<e[2], "0">>
    [] e[1] = "par" -> <<ParVal(M, b, args, e[2]), "0">>
    [] e[1] = "var" -> LET d == DefIndex(M, e[2])
                       IN IF d # 0 THEN EvalE(M, b, args, M.defs[d].expr, sh + e[3])
                          ELSE IF Received(M, b, e[2], sh + e[3]) THEN <<ArgVal(M, b, args, e[2], sh + e[3]), "0">>
                          ELSE LET k == TargetIndex(M, b, e[2], sh + e[3])
                               IN IF k # 0 /\ k <= Len(M.blocks[b]) THEN EvalE(M, b, args, M.blocks[b][k].rhs, 0)
                                  ELSE <<"nan", "0">>
    [] Len(e) = 2 -> Err1(e[1], EvalE(M, b, args, e[2], sh))
    [] OTHER -> Err2(e[1], EvalE(M, b, args, e[2], sh), EvalE(M, b, args, e[3], sh))
MeaningE(M, b, args) ==
  LET f == Formulas(M, b) IN [i \in 1..Len(f) |-> EvalE(M, b, args, f[i], 0)]
(* got agrees with <<value, error bound>> *)
Agrees(got, e, tol) ==
  \/ got = "nan" /\ e[1] = "nan"
  \/ e[2] = "inf"
  \/ RClose(got, e[1], tol)
  \/ RFin(got) /\ RFin(e[1]) /\ RLe(RAbs(RSub(got, e[1])), RAdd(e[2], RMul(tol, RMax("1", RAbs(e[1])))))
AllAgree(a, b, tol) == /\ Len(a) = Len(b) /\ \A i \in 1..Len(a) : Agrees(a[i], b[i], tol)

(* blocks a model offers: the written ones, its bounds, its definitions *)
Blocks(M) == DOMAIN M.blocks
             \cup (IF Len(M.bounds) > 0 THEN {"arbitrage_lb", "arbitrage_ub"} ELSE {})
             \cup (IF Len(M.defs) > 0 THEN {"auxiliary"} ELSE {})

(* forward-mode derivative of a formula with respect to component c of       *)
(* argument j: a pair <<value, derivative>>                                  *)
Dual1(o, a) ==
  CASE o = "neg" -> <<RNeg(a[1]), RNeg(a[2])>>
    [] o = "exp" -> LET v == RExp(a[1]) IN <<v, RMul(v, a[2])>>
    [] o = "log" -> <<RLog(a[1]), RDiv(a[2], a[1])>>
    [] OTHER -> <<"nan", "nan">>
Dual2(o, a, b) ==
  CASE o = "add" -> <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
    [] o = "sub" -> <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
    [] o = "mul" -> <<RMul(a[1], b[1]), RAdd(RMul(a[2], b[1]), RMul(a[1], b[2]))>>
    [] o = "div" -> <<RDiv(a[1], b[1]), RDiv(RSub(RMul(a[2], b[1]), RMul(a[1], b[2])), RMul(b[1], b[1]))>>
    [] o = "pow" -> LET v == RPow(a[1], b[1])
                    IN <<v, RAdd(IF REq(a[2], "0") THEN "0" ELSE RMul(a[2], RMul(b[1], RPow(a[1], RSub(b[1], "1")))),
                                 IF REq(b[2], "0") THEN "0" ELSE RMul(b[2], RMul(v, RLog(a[1]))))>>
    [] OTHER -> <<"nan", "nan">>

RECURSIVE EvalD(_, _, _, _, _, _, _)
EvalD(M, b, args, e, sh, j, c) ==
  CASE e[1] = "num" -> <<e[2], "0">>
    [] e[1] = "par" -> <<ParVal(M, b, args, e[2]), "0">>
    [] e[1] = "var" ->
         LET d == DefIndex(M, e[2])
         IN IF d # 0 THEN EvalD(M, b, args, M.defs[d].expr, sh + e[3], j, c)
            ELSE <<ArgVal(M, b, args, e[2], sh + e[3]),
                   IF Signature[b][j][2] = sh + e[3] /\ M.symbols[Signature[b][j][1]][c] = e[2] THEN "1" ELSE "0">>
    [] Len(e) = 2 -> Dual1(e[1], EvalD(M, b, args, e[2], sh, j, c))
    [] OTHER -> Dual2(e[1], EvalD(M, b, args, e[2], sh, j, c), EvalD(M, b, args, e[3], sh, j, c))

Derivative(M, b, args, i, j, c) == EvalD(M, b, args, Formulas(M, b)[i], 0, j, c)[2]
=============================================================================
