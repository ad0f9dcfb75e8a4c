---------------------------- MODULE MC_Dispatch ----------------------------
(* An implementation: the signatures are linked to the ones immediately above *)
(* them, results of lookups are kept until the next registration; it refines  *)
(* Dispatch.  Fault: "keeps" (lookups are kept for ever), "linked" (a new     *)
(* signature is only linked under those that share a parent with it),         *)
(* "unlinks" (a removed signature takes its links away), "first" (any of the  *)
(* most specific).  Emit: histories to replay on the real code.               *)
EXTENDS Dispatch, TLC, Json
CONSTANTS Fault, K, Emit, Deep
VARIABLES reg, par, kept, h
Classes == {"O", "A", "B", "C", "D"}
Mro == [O |-> <<"O">>, A |-> <<"A", "O">>, B |-> <<"B", "A", "O">>, C |-> <<"C", "A", "O">>, D |-> <<"D", "B", "C", "A", "O">>]
Sub == [x \in Classes |-> {Mro[x][i] : i \in 1..Len(Mro[x])}]
Sigs == IF Deep THEN {<<>>, <<"O">>, <<"A">>, <<"B">>, <<"C">>} \cup ({"O", "A", "B"} \X {"O", "A"}) \cup {<<"C", "A">>}
        ELSE {<<"O">>, <<"A">>, <<"O", "A">>, <<"A", "A">>, <<"B">>, <<"C">>}
Calls == {<<>>, <<"A">>, <<"D">>, <<"A", "B">>, <<"B", "A">>, <<"D", "D">>, <<"C", "B">>}
MCalls == IF Emit THEN {<<"D">>, <<"A", "B">>, <<"D", "A">>} ELSE Calls
Fns == 1..2
(* the algorithm *)
Under(ks, s) == {k \in ks : Above(Sub, k, s)}
Parents(ks, p, s) == LET U == Under(ks, s) IN U \ UNION {p[k] : k \in U}
Found(c) ==
  IF c \in DOMAIN kept THEN kept[c]
  ELSE IF c \in DOMAIN reg THEN {reg[c]}
  ELSE LET ps == Parents(DOMAIN reg, par, c)
           F == {reg[s] : s \in IF Fault = "first" THEN (IF ps = {} THEN {} ELSE {CHOOSE s \in ps : TRUE}) ELSE Nearest(Mro, ps, c)}
       IN IF Cardinality(F) = 1 THEN F ELSE {}
None == [c \in {} |-> {}]
Init == reg = <<>> /\ par = <<>> /\ kept = None /\ h = <<>>
Do(op, s, f) == h' = Append(h, [op |-> op, sig |-> s, fn |-> f])
Register == \E s \in Sigs, f \in Fns :
  LET ps == Parents(DOMAIN reg, par, s)
      relink(k) == Above(Sub, s, k) /\ (Fault # "linked" \/ ps = {} \/ ps \cap par[k] # {})
      old == [k \in DOMAIN reg |-> IF relink(k) THEN (par[k] \ ps) \cup {s} ELSE par[k]]
  IN /\ Do("set", s, f) /\ reg' = Set(reg, s, f)
     /\ par' = [k \in DOMAIN reg \cup {s} |-> IF k \in DOMAIN reg THEN old[k] ELSE ps]
     /\ kept' = IF Fault = "keeps" THEN kept ELSE None
Remove == \E s \in DOMAIN reg :
  LET ks == DOMAIN reg \ {s}
  IN /\ Do("unset", s, 0) /\ reg' = Unset(reg, s)
     /\ par' = [k \in ks |-> IF s \in par[k] THEN (IF Fault = "unlinks" THEN (par[k] \ {s}) \cup {x \in Under(ks, k) : Above(Sub, s, x)} ELSE Parents(ks, [x \in ks |-> par[x]], k)) ELSE par[k]]
     /\ kept' = IF Fault = "keeps" THEN kept ELSE None
Calling == \E c \in MCalls : /\ Do("call", c, 0) /\ UNCHANGED <<reg, par>>
                            /\ kept' = IF Found(c) = {} THEN kept ELSE Set(kept, c, Found(c))
Next == Len(h) < K /\ (Register \/ Remove \/ (~ Deep /\ Calling))
Right == \A c \in Calls : Found(c) = Resolve(Sub, Mro, reg, c)
(* an implementation that runs accepts the call, and no other one that does is more specific *)
Sensible == \A c \in Calls : \A f \in Resolve(Sub, Mro, reg, c) :
   \E s \in Applicable(Sub, reg, c) : reg[s] = f /\ \A t \in Applicable(Sub, reg, c) : ~ Above(Sub, s, t)
Total == \A c \in Calls : (<<>> \in DOMAIN reg => Applicable(Sub, reg, c) # {})
Histories == (Emit /\ Len(h) = K) => PrintT("@@B " \o ToJson(h))
View1 == IF Emit THEN <<h>> ELSE <<reg, par, kept, Len(h)>>
==============================================================================
