------------------------------- MODULE MC_Memo -------------------------------
(* An implementation: results are found under a key, in a table of memory or  *)
(* in files; it refines Memo when keys identify calls and files are complete. *)
(* Fault = "collide", "name", "partial": it does not.  Emit: histories to     *)
(* replay on the real code.                                                   *)
EXTENDS Memo, TLC, Json, FiniteSets
CONSTANTS Fault, K, Emit
VARIABLES table,   \* key -> value, in memory
          files,   \* key -> value, or <<"partial">>
          ret,     \* outcome of the last call: <<expected, returned, evaluated, was kept>>
          h
Fns == {"m", "d", "e"}            \* m is cached in memory, d and e on disk
Kind(f) == IF f = "m" THEN "memory" ELSE "disk"
Args == {1, 2}
Val(f, a) == <<f, a>>
Key(f, a) == CASE Fault = "collide" -> <<f, 0>> [] Fault = "name" -> <<"f", a>> [] OTHER -> <<f, a>>
Put(t, k, v) == [x \in DOMAIN t \cup {k} |-> IF x = k THEN v ELSE t[x]]
Init == /\ MemoInit /\ table = <<>> /\ files = <<>> /\ ret = <<>> /\ h = <<>>
Look(f, a) == LET t == IF Kind(f) = "memory" THEN table ELSE files k == Key(f, a) IN IF k \in DOMAIN t THEN t[k] ELSE <<>>
Do(op, f, a) == h' = Append(h, <<op, f, a>>)
Calls == \E f \in Fns, a \in Args :
  LET old == Look(f, a) v == IF old = <<>> THEN Val(f, a) ELSE old
  IN /\ Do("call", f, a) /\ Call(Kind(f), f, a, TRUE)
     /\ ret' = <<Val(f, a), v, old = <<>>, Kept(Kind(f), f, a)>>
     /\ table' = IF Kind(f) = "memory" THEN Put(table, Key(f, a), v) ELSE table
     /\ files' = IF Kind(f) = "disk" /\ v # <<"partial">> THEN Put(files, Key(f, a), v) ELSE files
Raises == \E f \in Fns, a \in Args : LET old == Look(f, a) IN
     /\ Do("raise", f, a) /\ UNCHANGED <<mem, disk, table, files>>
     /\ old = <<>> /\ ret' = <<>>
Crash == \E f \in Fns \ {"m"}, a \in Args :
     /\ Look(f, a) = <<>> /\ Do("crash", f, a) /\ Restart /\ table' = <<>> /\ ret' = <<>>
     /\ files' = IF Fault = "partial" THEN Put(files, Key(f, a), <<"partial">>) ELSE files
NewProcess == Do("restart", "", 0) /\ Restart /\ table' = <<>> /\ files' = files /\ ret' = <<>>
Clear == \/ /\ Do("clear", "", 0) /\ ClearAll /\ files' = <<>> /\ UNCHANGED table /\ ret' = <<>>
         \/ /\ Do("clear", "d", 0) /\ ClearFn("d") /\ UNCHANGED table /\ ret' = <<>>
            /\ files' = [k \in {x \in DOMAIN files : x[1] # "d"} |-> files[k]]
Damage == Do("damage", "", 0) /\ DamageAll /\ files' = <<>> /\ UNCHANGED table /\ ret' = <<>>
Next == Len(h) < K /\ (Calls \/ Raises \/ Crash \/ NewProcess \/ Clear \/ Damage)
Right == ret # <<>> => ret[1] = ret[2]
Once == ret # <<>> => ret[3] = ~ ret[4]
Refines == /\ DOMAIN table = mem /\ DOMAIN files = disk
Histories == (Emit /\ Len(h) = K) => PrintT("@@B " \o ToJson(h))
View1 == IF Emit THEN <<h>> ELSE <<mem, disk, table, files, ret, Len(h)>>
==============================================================================
