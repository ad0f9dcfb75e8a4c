---------------------------- MODULE Trace_Figure ----------------------------
(* I01: figures drawn by the real code, against Figure. *)
EXTENDS TraceCore, Figure
E == Ev
TraceInit == TraceCoreInit
Tol == "1/1000000000"
SameLine(a, b) == AllCloseN(a.x, b.x, Tol) /\ AllCloseN(a.y, b.y, Tol)
Finite(s) == SelectSeq(s, LAMBDA z : RFin(z))
Visible(p) == \A j \in 1..Len(p.lines) : \A i \in 1..Len(p.lines[j].y) :
    ~ RFin(p.lines[j].y[i]) \/ (RLe(p.ylim[1], p.lines[j].y[i]) /\ RLe(p.lines[j].y[i], p.ylim[2]) /\ RLe(p.xlim[1], p.lines[j].x[i]) /\ (RLe(p.lines[j].x[i], p.xlim[2]) \/ E.dated))
Simulated ==
  /\ IsEvent("Simulations")
  /\ IF Len(E.vars) > MaxPanels THEN Consume(<< <<"too-many-variables-are-refused", E.outcome # "ok", <<E.outcome, Len(E.vars)>> >> >>)
     ELSE IF E.outcome # "ok" THEN Consume(<< <<"figures-are-drawn", FALSE, <<E.outcome, E.how>> >> >>)
     ELSE LET P == Panels(E.sims, E.vars, E.titles, E.horizon)
              n == Len(P)
          IN Consume(<< <<"figures-are-drawn", TRUE>>, <<"one-panel-per-variable", Len(E.panels) >= n /\ \A k \in n + 1..Len(E.panels) : E.panels[k].lines = <<>>, <<Len(E.panels), n>> >>,
                        <<"arguments-are-left-unchanged", E.unchanged, E.how>>,
                        <<"panels-are-laid-out-as-asked", (E.layout = <<>> /\ E.rows * E.cols >= n) \/ E.layout = <<E.rows, E.cols>>, <<E.rows, E.cols>> >> >> \o
                     Flat([k \in 1..n |-> IF k > Len(E.panels) THEN <<>> ELSE
                        << <<"panels-are-titled", E.panels[k].title = P[k].title, <<E.panels[k].title, P[k].title>> >>,
                           <<"one-line-per-simulation", Len(E.panels[k].lines) = Len(P[k].lines), <<k, E.how>> >>,
                           <<"lines-are-the-simulated-values", Len(E.panels[k].lines) # Len(P[k].lines) \/ \A j \in 1..Len(P[k].lines) : SameLine(E.panels[k].lines[j], P[k].lines[j]), <<k, E.how>> >>,
                           <<"lines-are-visible", Visible(E.panels[k]), <<k, E.panels[k].ylim, E.panels[k].xlim>> >>,
                           <<"lines-have-the-style-of-their-simulation", \A j \in 1..Len(E.panels[k].lines) : j > Len(E.styles) \/ (E.panels[k].lines[j].style[2] = E.styles[j][2] /\ E.styles[j][1] \in {"", E.panels[k].lines[j].style[1]}), <<k, E.styles>> >> >>]))
(* figures of decision rules *)
LineOf(c) == LET b == E.rule[c].b K == E.rule[c].K
             IN [x |-> [k \in 1..E.n |-> Point(E.lo, E.hi, E.n, k)],
                 y |-> [k \in 1..E.n |-> Rule(b, K, State(E.s0, E.i, Point(E.lo, E.hi, E.n, k)))]]
Ruled ==
  /\ IsEvent("Rule")
  /\ IF E.outcome # "ok" THEN Consume(<< <<"figures-are-drawn", FALSE, <<E.outcome, E.how>> >> >>)
     ELSE Consume(<< <<"figures-are-drawn", TRUE>>,
                     <<"one-line-per-control", Len(E.lines) = Len(E.controls), <<Len(E.lines), E.how>> >>,
                     <<"lines-are-the-decision-rule", Len(E.lines) # Len(E.controls) \/ \A j \in 1..Len(E.controls) : SameLine(E.lines[j], LineOf(E.controls[j])), E.how>>,
                     <<"lines-are-labelled", \A j \in 1..Len(E.lines) : j > Len(E.labels) \/ E.lines[j].label = E.labels[j], <<E.labels, E.how>> >> >>)
TraceNext == Simulated \/ Ruled \/ Stopped
==============================================================================
