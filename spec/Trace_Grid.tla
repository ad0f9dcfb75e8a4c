------------------------------ MODULE Trace_Grid ------------------------------
(* G01: recorded grids against Grid *)
EXTENDS TraceCore, Grid
Tol == "1/1000000000000"
TraceInit == TraceCoreInit

Common ==   \* what every grid must satisfy, whatever its kind
  << <<"announces-its-number-of-nodes", Ev.n_nodes = Len(Ev.nodes), <<Ev.n_nodes, Len(Ev.nodes)>> >>,
     <<"node-i-is-row-i", Ev.node = Ev.nodes>> >>

Uniform ==
  /\ IsEvent("Uniform")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"grid-is-built", FALSE, Ev.outcome>> >>
             ELSE LET N == UniformNodes(Ev.min, Ev.max, Ev.n) IN
             Common \o
             << <<"uniform-size", Len(Ev.nodes) = Prod(Ev.n), <<Len(Ev.nodes), Ev.n>> >>,
                <<"uniform-nodes", MatClose(Ev.nodes, N, Tol)>>,
                <<"uniform-attributes", AllClose(Ev.amin, Ev.min, Tol) /\ AllClose(Ev.amax, Ev.max, Tol) /\ Ev.an = Ev.n /\ Ev.d = Len(Ev.n)>>,
                <<"uniform-starts-at-min", Len(Ev.nodes) > 0 /\ AllClose(Ev.nodes[1], Ev.min, Tol)>>,
                <<"uniform-ends-at-max", (\A k \in 1..Len(Ev.n) : Ev.n[k] > 1) =>
                     Len(Ev.nodes) > 0 /\ AllClose(Ev.nodes[Len(Ev.nodes)], Ev.max, Tol)>> >>)

NonUniform ==
  /\ IsEvent("NonUniform")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"grid-is-built", FALSE, Ev.outcome>> >>
             ELSE Common \o
             << <<"product-nodes", MatClose(Ev.nodes, ProductNodes(Ev.lists), "0")>>,
                <<"product-attributes", Ev.an = Sizes(Ev.lists) /\ Ev.d = Len(Ev.lists) /\
                     \A k \in 1..Len(Ev.lists) : /\ RClose(Ev.amin[k], ColMin(ProductNodes(Ev.lists), k), "0")
                                                 /\ RClose(Ev.amax[k], ColMax(ProductNodes(Ev.lists), k), "0")>> >>)

Unstructured ==
  /\ IsEvent("Unstructured")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"grid-is-built", FALSE, Ev.outcome>> >>
             ELSE Common \o
             << <<"unstructured-nodes", MatClose(Ev.nodes, Ev.given, "0")>>,
                <<"unstructured-attributes", Ev.d = Len(Ev.given[1]) /\ Len(Ev.amin) = Ev.d /\ Len(Ev.amax) = Ev.d /\
                     \A k \in 1..Ev.d : RClose(Ev.amin[k], ColMin(Ev.given, k), "0") /\ RClose(Ev.amax[k], ColMax(Ev.given, k), "0")>> >>)

Smolyak ==
  /\ IsEvent("Smolyak")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"grid-is-built", FALSE, Ev.outcome>> >>
             ELSE Common \o
             << <<"smolyak-count", Len(Ev.nodes) = SmolyakCount(Len(Ev.min), Ev.mu), <<Len(Ev.nodes), SmolyakCount(Len(Ev.min), Ev.mu)>> >>,
                <<"smolyak-distinct", Cardinality({Ev.nodes[i] : i \in 1..Len(Ev.nodes)}) = Len(Ev.nodes)>>,
                <<"smolyak-spans-the-bounds", \A k \in 1..Len(Ev.min) :
                     /\ RClose(ColMin(Ev.nodes, k), Ev.min[k], Tol) /\ RClose(ColMax(Ev.nodes, k), Ev.max[k], Tol)>>,
                <<"smolyak-has-the-center", \E i \in 1..Len(Ev.nodes) : \A k \in 1..Len(Ev.min) :
                     RClose(Ev.nodes[i][k], RMul("1/2", RAdd(Ev.min[k], Ev.max[k])), Tol)>>,
                <<"smolyak-symmetric", \A i \in 1..Len(Ev.nodes) : \E j \in 1..Len(Ev.nodes) : \A k \in 1..Len(Ev.min) :
                     RClose(RAdd(Ev.nodes[i][k], Ev.nodes[j][k]), RAdd(Ev.min[k], Ev.max[k]), Tol)>> >>)

(* bounds and sizes of different lengths describe no grid *)
Mismatched ==
  /\ IsEvent("Mismatched")
  /\ Consume(<< <<"mismatched-bounds-are-refused", Cardinality({Ev.sizes[k] : k \in 1..Len(Ev.sizes)}) > 1 => Ev.outcome # "ok", Ev.sizes>> >>)

(* plain arrays returned by the enumeration functions *)
Array ==
  /\ IsEvent("Array")
  /\ Consume(IF Ev.outcome # "ok" THEN << <<"enumeration-returns", FALSE, Ev.outcome>> >>
             ELSE << <<"enumeration-of-a-product",
                       IF Ev.kind = "lists" THEN MatClose(Ev.nodes, ProductNodes(Ev.lists), "0")
                       ELSE MatClose(Ev.nodes, UniformNodes(Ev.min, Ev.max, Ev.n), Tol)>> >>)

TraceNext == Uniform \/ NonUniform \/ Unstructured \/ Smolyak \/ Mismatched \/ Array \/ Stopped
=============================================================================
