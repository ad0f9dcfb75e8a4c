------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Functions with several implementations (U01).                           *)
(*                                                                         *)
(* An implementation is registered under a signature, a sequence of        *)
(* classes.  A call is described by the sequence of the classes of its     *)
(* arguments.  `Sub` gives for each class the set of the classes it is a   *)
(* subclass of (itself included), and `Mro` the order in which a class     *)
(* inherits from them; a class may be a subclass of one that is not in its *)
(* order (a virtual base, a union), which counts as far as the last one.   *)
(*                                                                         *)
(* What runs depends on what is registered at the time of the call, and on *)
(* nothing else: not on the order of the registrations, not on what was    *)
(* removed, not on the calls made before.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
(* the signature s accepts a call of classes c *)
Accepts(Sub, s, c) == Len(s) <= Len(c) /\ \A i \in 1..Len(s) : s[i] \in Sub[c[i]]
(* s is more general than t *)
Above(Sub, s, t) == s # t /\ Accepts(Sub, s, t)
Applicable(Sub, reg, c) == {s \in DOMAIN reg : Accepts(Sub, s, c)}
MostSpecific(Sub, reg, c) == LET A == Applicable(Sub, reg, c) IN {s \in A : ~ \E t \in A : Above(Sub, s, t)}
(* how far the classes of s are, in the inheritance of those of c *)
Pos(Mro, x, y) == LET m == Mro[x] IN IF \E i \in 1..Len(m) : m[i] = y THEN CHOOSE i \in 1..Len(m) : m[i] = y ELSE Len(m)
Distance(Mro, s, c) == [i \in 1..Len(s) |-> Pos(Mro, c[i], s[i])]
(* the order of sequences: the first difference decides, then the length *)
RECURSIVE Nearer(_, _)
Nearer(a, b) ==
  IF a = <<>> THEN b # <<>>
  ELSE IF b = <<>> THEN FALSE
  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
  ELSE Nearer(Tail(a), Tail(b))
Nearest(Mro, S, c) == {s \in S : ~ \E t \in S : Nearer(Distance(Mro, t, c), Distance(Mro, s, c))}
(* the implementation that runs; <<>> when none applies or none is preferred *)
Choices(Sub, Mro, reg, c) ==
  IF c \in DOMAIN reg THEN {reg[c]}
  ELSE {reg[s] : s \in Nearest(Mro, MostSpecific(Sub, reg, c), c)}
Resolve(Sub, Mro, reg, c) ==
  LET F == Choices(Sub, Mro, reg, c) IN IF Cardinality(F) = 1 THEN F ELSE {}
Set(reg, s, f) == [x \in DOMAIN reg \cup {s} |-> IF x = s THEN f ELSE reg[x]]
Unset(reg, s) == [x \in DOMAIN reg \ {s} |-> reg[x]]
==============================================================================
