------------------------------ MODULE TraceCore ------------------------------
(***************************************************************************)
(* Binding of a specification to executions of the real code.              *)
(*                                                                         *)
(* A trace file has one JSON event per line, recorded at the return of a   *)
(* public call.  A trace specification consumes the events one by one with *)
(* `Consume(cs)`, where cs is the sequence of <<clause name, holds, info>> *)
(* the event was judged by.  The verdict is total: a failing clause is     *)
(* recorded in `bad`, and the rest of the trace is still examined.  `cov`  *)
(* counts how often each clause was evaluated, so that a run which never   *)
(* exercised a clause is visible.  The runner reads the verdict from the   *)
(* file written by `Report` when the last event has been consumed.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Rat

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES l,    \* position in Trace
          bad,  \* failing clauses found so far
          cov   \* clause name -> number of evaluations

traceVars == <<l, bad, cov>>

MaxBad == 60

TraceCoreInit == l = 1 /\ bad = <<>> /\ cov = <<>>

Ev == Trace[l]
More == l <= Len(Trace)
IsEvent(e) == More /\ Trace[l].ev = e

Has(r, f) == f \in DOMAIN r

Count(c, cs) ==
  LET names == {cs[i][1] : i \in 1..Len(cs)}
      num(n) == Cardinality({i \in 1..Len(cs) : cs[i][1] = n})
      D == DOMAIN c
  IN  [n \in names \cup D |-> (IF n \in D THEN c[n] ELSE 0) + (IF n \in names THEN num(n) ELSE 0)]

Consume(cs) ==
  /\ l' = l + 1
  /\ LET fresh(c) == \A j \in 1..Len(bad) : ~ (bad[j].sc = Trace[l].sc /\ bad[j].clause = c[1])
         f == SelectSeq(cs, LAMBDA c : ~ c[2] /\ fresh(c))
         g == [i \in 1..Len(f) |-> [line |-> l, sc |-> Trace[l].sc, ev |-> Trace[l].ev,
                                    clause |-> f[i][1],
                                    info |-> IF Len(f[i]) > 2 THEN ToString(f[i][3]) ELSE ""]]
     IN  bad' = IF Len(bad) >= MaxBad THEN bad ELSE bad \o g
  /\ cov' = Count(cov, cs)

Report ==
  (l = Len(Trace) + 1) =>
     JsonSerialize(IOEnv.VERDICT_FILE, [n |-> l - 1, bad |-> bad, cov |-> cov])

(* the recorder could not finish a scenario: the code under test hung, or   *)
(* returned something no observation could be made of                      *)
Stopped == IsEvent("DriverStop") /\ Consume(<<<<"execution-completes", FALSE, Ev.why>>>>)

(* helpers shared by the trace specifications *)
AllClose(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : RClose(a[i], b[i], tol)
CloseN(a, b, tol) == (a = "nan" /\ b = "nan") \/ RClose(a, b, tol)     \* nan matches nan
AllCloseN(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : CloseN(a[i], b[i], tol)
AllFin(a) == \A i \in 1..Len(a) : RFin(a[i])
MatShape(m, r, c) == Len(m) = r /\ \A i \in 1..r : Len(m[i]) = c
MatClose(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : AllClose(a[i], b[i], tol)
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
=============================================================================
