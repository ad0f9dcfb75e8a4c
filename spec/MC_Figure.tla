------------------------------ MODULE MC_Figure ------------------------------
(* Drawing line by line gives the figure of the specification.  Fault:         *)
(* "options" (as many styles as variables), "horizon" (every line is as long   *)
(* as the first simulation), "order" (lines go to the panel of their           *)
(* simulation).  Emit: figures to draw with the real code.                     *)
EXTENDS Figure, TLC, Json
CONSTANTS Fault, Emit
VARIABLES cfg, fig, at
N == 1..3
Cfgs == {[ns |-> a, nv |-> b, h |-> h, lens |-> l] : a \in N, b \in {1, 2, 3, 5}, h \in {2, 4, 9}, l \in {<<3, 3, 3>>, <<3, 5, 2>>}}
Vars == <<"u", "v", "w", "x", "y">>
Val(j, k, t) == ToRat(100 * j + 10 * k + t)
Sim(c, j) == [dates |-> [t \in 1..c.lens[j] |-> ToRat(t - 1)],
              vars |-> [v \in {Vars[k] : k \in 1..5} |-> [t \in 1..c.lens[j] |-> Val(j, CHOOSE k \in 1..5 : Vars[k] = v, t)]]]
Sims(c) == [j \in 1..c.ns |-> Sim(c, j)]
Vs(c) == SubSeq(Vars, 1, c.nv)
Empty(c) == [k \in 1..c.nv |-> [title |-> "", lines |-> <<>>]]
Init == cfg \in Cfgs /\ fig = Empty(cfg) /\ at = <<1, 1>>
Steps == [k \in 1..cfg.nv |-> k]
Draw ==
  /\ at[1] <= cfg.nv
  /\ LET k == at[1] j == at[2]
         h == IF Fault = "horizon" THEN cfg.lens[1] ELSE cfg.h
         ln == Line(Sim(cfg, j), Vars[k], h)
         p == IF Fault = "order" /\ j <= cfg.nv THEN j ELSE k
     IN /\ Fault = "options" => j <= cfg.nv
        /\ fig' = [i \in 1..cfg.nv |-> [title |-> IF i = k THEN Vars[k] ELSE fig[i].title,
                                        lines |-> IF i = p THEN Append(fig[i].lines, ln) ELSE fig[i].lines]]
        /\ at' = IF j < cfg.ns THEN <<k, j + 1>> ELSE <<k + 1, 1>>
        /\ UNCHANGED cfg
Next == Draw
Done == at[1] > cfg.nv
Drawn == Done => fig = Panels(Sims(cfg), Vs(cfg), Vs(cfg), cfg.h)
(* drawing never stops half-way *)
Goes == Done \/ ENABLED Draw
Room == \A n \in 1..MaxPanels : Layout(n)[1] * Layout(n)[2] >= n
Figures == (Emit /\ at = <<1, 1>>) => PrintT("@@B " \o ToJson([sims |-> Sims(cfg), vars |-> Vs(cfg), horizon |-> cfg.h]))
==============================================================================
