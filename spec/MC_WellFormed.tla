---------------------------- MODULE MC_WellFormed ----------------------------
(* One block at a time, with any symbol at any date (-2 to 2) put in any of   *)
(* its equations, bounds, in a definition or in the calibration; and a list   *)
(* of single faults.  Emit: the files are imported by the code.               *)
EXTENDS WellFormed, TLC, Json
CONSTANT Emit
VARIABLES b, where, pos, leaf
Groups == << [g |-> "exogenous", names |-> <<"z">>], [g |-> "states", names |-> <<"k", "r">>], [g |-> "controls", names |-> <<"c", "w">>],
             [g |-> "values", names |-> <<"v">>], [g |-> "rewards", names |-> <<"u">>], [g |-> "expectations", names |-> <<"q">>],
             [g |-> "poststates", names |-> <<"a">>], [g |-> "parameters", names |-> <<"p", "d">>] >>
NamesUsed == {"z", "k", "r", "c", "w", "v", "u", "q", "a", "y", "nope"}
L0 == <<"par", "p">>
Kinds == DOMAIN Signature \ {"auxiliary", "arbitrage_lb", "arbitrage_ub", "arbitrage_exp"}
Tg(bl) == IF bl \in DOMAIN Target THEN Target[bl] ELSE <<"controls", 0>>
TgNames(bl) == LET i == CHOOSE j \in 1..Len(Groups) : Groups[j].g = Tg(bl)[1] IN Groups[i].names
Add(l) == IF l = <<>> THEN L0 ELSE <<"add", L0, l>>
File(bl, wh, k, l) ==
  [groups |-> Groups,
   defs |-> << [name |-> "y", date |-> 0, expr |-> IF wh = "def" THEN <<"add", <<"var", "k", 0>>, l>> ELSE <<"mul", <<"var", "k", 0>>, <<"var", "c", 0>>>>] >>,
   eqs |-> << [block |-> bl, list |-> [j \in 1..Len(TgNames(bl)) |->
                 [lhs |-> IF bl \in DOMAIN Target THEN <<TgNames(bl)[j], Tg(bl)[2]>> ELSE <<>>,
                  expr |-> IF wh = "eq" /\ j = k THEN Add(l) ELSE L0,
                  comp |-> IF wh = "bound" /\ j = k THEN <<TgNames(bl)[j], 0, <<"num", "0">>, l>> ELSE <<>>]]] >>,
   domain |-> <<"k", "r">>, exo |-> << [names |-> <<"z">>, dim |-> 1] >>,
   cal |-> [n \in (NamesUsed \cup {"p", "d"}) \ {"y", "nope"} |-> IF wh = "cal" /\ n = "k" THEN Add(l) ELSE <<"num", "1/2">>]]
Vars == {<<"var", n, t>> : n \in NamesUsed \cup {"p"}, t \in -2..2}
Pars == {<<"par", n>> : n \in {"p", "d", "nope"}}
Init == \/ b \in Kinds /\ where = "eq" /\ pos \in 1..Len(TgNames(b)) /\ leaf \in Vars \cup Pars
        \/ b = "arbitrage" /\ where = "bound" /\ pos \in {1, 2} /\ leaf \in Vars \cup Pars
        \/ b = "felicity" /\ where = "def" /\ pos = 1 /\ leaf \in Vars \cup Pars
        \/ b = "felicity" /\ where = "cal" /\ pos = 1 /\ leaf \in {<<"var", n, 0>> : n \in NamesUsed} \cup Pars
Next == UNCHANGED <<b, where, pos, leaf>>
F == File(b, where, pos, leaf)
Base == \A bl \in Kinds : Accepted(File(bl, "", 1, <<>>))
Single == Faults(F) \subseteq (CASE where = "cal" -> {"calibration"} [] where = "def" -> {"definition", "calibration"} [] OTHER -> {"symbol or date"})
(* every fault is seen, and only that one *)
G == File("arbitrage", "", 1, <<>>)
T2 == File("transition", "", 1, <<>>)
Faulty ==
  /\ Faults([G EXCEPT !.groups[4].names = <<"v", "k">>]) = {"symbol declared twice"}
  /\ Faults([G EXCEPT !.defs[1].name = "k"]) = {"definition"} /\ Faults([G EXCEPT !.defs[1].date = 1]) = {"definition"}
  /\ Faults([G EXCEPT !.eqs[1].list = SubSeq(@, 1, 1)]) = {"number of arbitrage equations"}
  /\ Faults([G EXCEPT !.eqs[1].list[1].comp = <<"w", 0, L0, L0>>]) = {"complementarity"}
  /\ Faults([G EXCEPT !.domain = <<"r">>]) = {"domain"} /\ Faults([G EXCEPT !.domain = <<>>]) = {}
  /\ Faults([G EXCEPT !.exo[1].dim = 2]) = {"shocks"} /\ Faults([G EXCEPT !.exo[1].names = <<"zz">>]) = {"shocks"}
  /\ Faults([T2 EXCEPT !.eqs[1].list = <<@[2], @[1]>>]) = {"left-hand sides"} /\ Faults([T2 EXCEPT !.eqs[1].list = SubSeq(@, 1, 1)]) = {"left-hand sides"}
  /\ Faults([T2 EXCEPT !.eqs[1].block = "transitions"]) = {"unknown block"}
  /\ "missing group" \in Faults([T2 EXCEPT !.groups = SubSeq(@, 1, 7)])
Files == Emit => PrintT("@@B " \o ToJson([file |-> F, accepted |-> Accepted(F), what |-> <<b, where, leaf>>]))
==============================================================================
