-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.  TLC's integers are 32-bit and it has no reals, *)
(* while everything this specification talks about is a real number that   *)
(* the implementation approximates with IEEE doubles.  A double is an      *)
(* exact rational, so the recorders log each of them exactly.              *)
(*                                                                         *)
(* A number is a string: "n", "n/d", or one of the tokens "nan", "inf",    *)
(* "-inf".  The operators are implemented by java/Rat.java (BigInteger),   *)
(* which TLC loads in place of the bodies below; the bodies only fix the   *)
(* arities.  MC_Rat.tla checks the implementation against plain TLA+       *)
(* integer arithmetic on all small fractions.  All operators are total.    *)
(***************************************************************************)
RAdd(a, b) == CHOOSE r \in STRING : TRUE       \* a + b
RSub(a, b) == CHOOSE r \in STRING : TRUE       \* a - b
RMul(a, b) == CHOOSE r \in STRING : TRUE       \* a * b
RDiv(a, b) == CHOOSE r \in STRING : TRUE       \* a / b
RNeg(a)    == CHOOSE r \in STRING : TRUE       \* -a
RAbs(a)    == CHOOSE r \in STRING : TRUE       \* |a|
RLt(a, b)  == CHOOSE r \in BOOLEAN : TRUE      \* a < b   (FALSE on nan)
RLe(a, b)  == CHOOSE r \in BOOLEAN : TRUE      \* a <= b  (FALSE on nan)
REq(a, b)  == CHOOSE r \in BOOLEAN : TRUE      \* a = b   (FALSE on nan)
RMin(a, b) == CHOOSE r \in STRING : TRUE
RMax(a, b) == CHOOSE r \in STRING : TRUE
RFin(a)    == CHOOSE r \in BOOLEAN : TRUE      \* a is a finite number
RExp(a)    == CHOOSE r \in STRING : TRUE       \* to 60 digits
RLog(a)    == CHOOSE r \in STRING : TRUE       \* to 60 digits
RPow(a, b) == CHOOSE r \in STRING : TRUE       \* exact for integer b, else 60 digits
RSqrt(a)   == CHOOSE r \in STRING : TRUE       \* exact on squares, else 60 digits
RFloor(a)  == CHOOSE r \in {0} : TRUE          \* an Int
RSum(s)    == CHOOSE r \in STRING : TRUE       \* sum of a sequence
RDot(s, t) == CHOOSE r \in STRING : TRUE       \* nan when lengths differ
RClose(a, b, tol) == CHOOSE r \in BOOLEAN : TRUE  \* |a-b| <= tol*max(1,|a|,|b|)
RNormCdf(a) == CHOOSE r \in STRING : TRUE      \* standard normal distribution function
RPi        == CHOOSE r \in STRING : TRUE       \* to 60 digits
RSinPi(a)  == CHOOSE r \in STRING : TRUE       \* sin(pi a), to 60 digits
RRound(a)  == CHOOSE r \in STRING : TRUE       \* rounded to 50 digits
RFix(a)    == CHOOSE r \in STRING : TRUE       \* to the nearest multiple of 2^-100
Force(v)   == v                                \* identity; evaluates v once
Flat(s)    == CHOOSE r \in {s} : TRUE          \* concatenation of the sequences in s
(* elementwise, on nested sequences; a number stands for a constant sequence *)
VAdd(a, b) == CHOOSE r \in {a} : TRUE
VSub(a, b) == CHOOSE r \in {a} : TRUE
VMul(a, b) == CHOOSE r \in {a} : TRUE
VDiv(a, b) == CHOOSE r \in {a} : TRUE
VFix(a)    == CHOOSE r \in {a} : TRUE
VCountLe(s, c) == CHOOSE r \in {0} : TRUE       \* how many elements are <= c
ToRat(n)   == CHOOSE r \in STRING : TRUE       \* an Int as a number
RShow(a)   == CHOOSE r \in STRING : TRUE       \* 12 digits, for messages
=============================================================================
