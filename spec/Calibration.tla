----------------------------- MODULE Calibration -----------------------------
(***************************************************************************)
(* The calibration of a model: the unique solution of the system made of    *)
(*   - the entries of the calibration section (the `data`),                 *)
(*   - for a definition without entry, the definition itself,               *)
(*   - for any other declared symbol without entry, its default.            *)
(* The system has a solution iff its dependency graph is acyclic and closed.*)
(***************************************************************************)
EXTENDS DoloModel, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
DefNames(M) == {M.defs[i].name : i \in 1..Len(M.defs)}
Declared(M) == UNION {Range(M.symbols[g]) : g \in DOMAIN M.symbols} \cup DefNames(M)

Default(M, n) == IF n \in Range(M.symbols.exogenous) THEN <<"num", "0">> ELSE <<"num", "nan">>

(* the whole system: name -> expression (dates are ignored) *)
System(M, data) ==
  [n \in DOMAIN data \cup Declared(M) |->
     IF n \in DOMAIN data THEN data[n]
     ELSE IF n \in DefNames(M) THEN M.defs[DefIndex(M, n)].expr
     ELSE Default(M, n)]

RECURSIVE Atoms(_)
Atoms(e) == CASE e[1] = "num" -> {}
              [] e[1] \in {"par", "var"} -> {e[2]}
              [] Len(e) = 2 -> Atoms(e[2])
              [] OTHER -> Atoms(e[2]) \cup Atoms(e[3])

RECURSIVE EvalIn(_, _)
EvalIn(e, val) == CASE e[1] = "num" -> e[2]
                    [] e[1] \in {"par", "var"} -> val[e[2]]
                    [] Len(e) = 2 -> Op1(e[1], EvalIn(e[2], val))
                    [] OTHER -> Op2(e[1], EvalIn(e[2], val), EvalIn(e[3], val))

(* one round of substitution solves every symbol whose atoms are solved *)
RECURSIVE Rounds(_, _)
Rounds(sys, val) ==
  LET ready == {n \in DOMAIN sys \ DOMAIN val : Atoms(sys[n]) \subseteq DOMAIN val}
  IN IF ready = {} THEN val
     ELSE Rounds(sys, val @@ [n \in ready |-> EvalIn(sys[n], val)])

Solve(M, data) == Rounds(System(M, data), <<>>)
Solvable(M, data) == DOMAIN Solve(M, data) = DOMAIN System(M, data)

(* views *)
Group(M, sol, g) == IF g = "auxiliaries" THEN [i \in 1..Len(M.defs) |-> sol[M.defs[i].name]]
                    ELSE [i \in 1..Len(M.symbols[g]) |-> sol[M.symbols[g][i]]]

DomainOf(M, sol) ==      \* one [min, max] per state, in declaration order
  [i \in 1..Len(M.symbols.states) |->
     LET b == M.domain[M.symbols.states[i]] IN <<EvalIn(b[1], sol), EvalIn(b[2], sol)>>]

ExogenousOf(M, sol) ==   \* one matrix of numbers per parameter of each process
  [i \in 1..Len(M.exo) |-> [k \in 1..Len(M.exo[i].params) |->
      LET A == M.exo[i].params[k] IN [r \in 1..Len(A) |-> [c \in 1..Len(A[r]) |-> EvalIn(A[r][c], sol)]]]]

CalibArgs(M, sol, b) == [j \in 1..Len(Signature[b]) |-> Group(M, sol, Signature[b][j][1])]

ResidualsOf(M, sol) ==
  [ transition |-> LET r == Meaning(M, "transition", CalibArgs(M, sol, "transition"))
                   IN [i \in 1..Len(r) |-> RSub(r[i], Group(M, sol, "states")[i])],
    arbitrage  |-> Meaning(M, "arbitrage", CalibArgs(M, sol, "arbitrage")) ]
=============================================================================
