-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Rational numbers of unbounded precision.  TLC's integers have 32 bits,  *)
(* so a number is a string "n/d" or "n" (large ones with a power of two as *)
(* denominator "xNpK": hexadecimal N over 2^K); the non-finite results     *)
(* that floating point code can log are "inf", "-inf" and "nan".  TLC      *)
(* evaluates these operators with java/Num.java: exact up to 300 bits (128 *)
(* if the denominator is not a power of two), 240 significant bits beyond, *)
(* exp and ln to 50 digits, exp(x) = "inf" for x > 4000 and 0 below -4000. *)
(* The definitions below fix the signatures; the *)
(* meaning is that of module NumRef (pairs of integers), and NumTest.tla   *)
(* makes TLC compare the two on a grid, together with the functional       *)
(* equations of exp and ln.                                                *)
(* Comparisons with "nan" are FALSE, so a clause over a nan fails.         *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

R(a) == a                \* canonical form of an integer, decimal or fraction
RAdd(a, b) == a
RSub(a, b) == a
RMul(a, b) == a
RDiv(a, b) == a
RNeg(a) == a
RAbs(a) == a
RMax(a, b) == a
RMin(a, b) == a
RLt(a, b) == TRUE
RLe(a, b) == TRUE
REq(a, b) == TRUE
RFin(a) == TRUE          \* a is a number
RNaN(a) == TRUE
RExp(a) == a
RLn(a) == a
RRound(a) == a           \* a 
RCeil(a) == 0            \* smallest integer >= a, as a TLA+ integer
RSum(s) == s             \* sum of a sequence
RDot(s, t) == s          \* scalar product of two sequences
RMaxAbs(s) == s          \* 0 for the empty sequence
RMaxOf(s) == s
RMinOf(s) == s
RShow(a) == a            \* decimal rendering, for messages
Strict(e) == e           \* e; TLC evaluates it outside of the action it occurs in, where it
                         \* caches the values of LET definitions (java/NumOverrides.java)
=============================================================================
