------------------------------ MODULE ModelCache ------------------------------
(***************************************************************************)
(* Model objects as a state machine.  `data[o]` is the symbolic calibration *)
(* section of object o; every other view is computed from it on first use   *)
(* and cached.  Property: a read returns the view of the current data       *)
(* (Coherent), i.e. an object cannot be told apart from one freshly         *)
(* imported, and (Frame) an operation on one object changes no other.       *)
(* Stale is the set of views a change of calibration fails to drop; the     *)
(* correct object has Stale = {}.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Views, Stale, View(_, _, _)
VARIABLES data,     \* object -> symbol -> expression
          cache,    \* object -> view -> <<>> (nothing cached) or <<value>>
          result    \* last read: <<object, view, value>> or <<>>

vars == <<data, cache, result>>

Empty == [v \in Views |-> <<>>]

MCInit == data = <<>> /\ cache = <<>> /\ result = <<>>

Import(o, d) == data' = (o :> d) @@ data /\ cache' = (o :> Empty) @@ cache /\ result' = <<>>

SetCalibration(o, f) ==      \* f: the entries to overwrite or add
  /\ data' = [data EXCEPT ![o] = f @@ @]
  /\ cache' = [cache EXCEPT ![o] = [v \in Views |-> IF v \in Stale THEN @[v] ELSE <<>>]]
  /\ result' = <<>>

Read(o, v) ==
  /\ cache' = [cache EXCEPT ![o][v] = IF @ = <<>> THEN <<View(o, v, data[o])>> ELSE @]
  /\ result' = <<o, v, cache'[o][v][1]>>
  /\ UNCHANGED data

Coherent == result # <<>> => result[3] = View(result[1], result[2], data[result[1]])
CacheCoherent == \A o \in DOMAIN cache : \A v \in Views :
                    cache[o][v] # <<>> => cache[o][v][1] = View(o, v, data[o])
Frame == \A o \in DOMAIN data :
            [][ (data'[o] # data[o]) => (\A p \in DOMAIN data : p # o => data'[p] = data[p]) ]_vars
=============================================================================
