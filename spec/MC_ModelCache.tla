---------------------------- MODULE MC_ModelCache ----------------------------
(* Exhaustive check of ModelCache on two objects with two symbols, with     *)
(* views depending on one, the other or both; with history variable h this  *)
(* module also prints every history of length K for replay on the code.     *)
EXTENDS ModelCache, Json
CONSTANTS K, Emit, Objs
VARIABLE h
MCView(o, v, d) == CASE v = "calibration" -> <<d["p"], d["q"]>>
                     [] v = "domain" -> <<d["p"]>>
                     [] v = "exogenous" -> <<d["q"]>>
                     [] OTHER -> <<d["p"], d["q"], 0>>
Changes == << ("p" :> 1), ("p" :> 2), ("q" :> 2), ("p" :> 1) @@ ("q" :> 1) >>
D0 == ("p" :> 0) @@ ("q" :> 0)
Init == /\ data = [o \in Objs |-> D0]
        /\ cache = [o \in Objs |-> Empty] /\ result = <<>> /\ h = <<>>
Record(x) == h' = IF Emit THEN Append(h, x) ELSE h
Next == \E o \in Objs :
          \/ \E i \in 1..Len(Changes) : SetCalibration(o, Changes[i]) /\ Record([o |-> o, op |-> "set", i |-> i, view |-> ""])
          \/ \E v \in Views : Read(o, v) /\ Record([o |-> o, op |-> "read", i |-> 0, view |-> v])
Bound == Len(h) < K
\* only histories worth replaying: they end with a read that follows a change
Worth == h[K].op = "read" /\ \E i \in 1..K : h[i].op = "set"
PrintHistories == (Emit /\ Len(h) = K /\ Worth) => PrintT("@@B " \o ToJson(h))
FrameP == [][ \A o \in Objs : \A p \in Objs :
                 (o # p /\ data'[o] # data[o]) => (data'[p] = data[p] /\ cache'[p] = cache[p]) ]_vars
=============================================================================
