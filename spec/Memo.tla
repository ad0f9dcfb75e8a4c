-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* Functions whose results are kept (C01).                                 *)
(*                                                                         *)
(* `mem` holds what the running process has kept of the functions cached   *)
(* in memory, `disk` what is kept in the cache directory of the functions  *)
(* cached on disk; both are sets of <<function, argument>>.  A process may *)
(* stop at any time, in particular while a result is being saved; entries  *)
(* may be cleared, or damaged.                                             *)
(***************************************************************************)
EXTENDS Sequences, Integers
VARIABLES mem, disk
memoVars == <<mem, disk>>
MemoInit == mem = {} /\ disk = {}
Store(kind) == IF kind = "memory" THEN mem ELSE disk
Kept(kind, f, a) == <<f, a>> \in Store(kind)
(* a call; `saves` is whether its outcome can be kept *)
Call(kind, f, a, saves) ==
  /\ mem' = IF kind = "memory" /\ saves THEN mem \cup {<<f, a>>} ELSE mem
  /\ disk' = IF kind = "disk" /\ saves THEN disk \cup {<<f, a>>} ELSE disk
(* the process stops (possibly while a result is being saved) and another one starts *)
Restart == mem' = {} /\ UNCHANGED disk
ClearAll == disk' = {} /\ UNCHANGED mem
ClearFn(f) == disk' = {e \in disk : e[1] # f} /\ UNCHANGED mem
DamageAll == disk' = {} /\ UNCHANGED mem
==============================================================================
