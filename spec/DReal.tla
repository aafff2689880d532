------------------------------- MODULE DReal -------------------------------
(***************************************************************************)
(* IEEE double arithmetic for TLC.  A real is a TLA+ string holding its    *)
(* shortest decimal representation ("1.5", "-2.0E-7", "NaN").  Every       *)
(* operator below is overridden by java/DReal.java (TLC loads a class with *)
(* the module's name); the TLA+ right-hand sides are placeholders.         *)
(*                                                                         *)
(* No formula of DREAM lives in Java: the class only knows +, -, *, /,     *)
(* elementary functions, comparisons and rounding.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

R(i)        == CHOOSE s \in STRING : TRUE   \* integer -> real
RQ(p, q)    == CHOOSE s \in STRING : TRUE   \* p / q, p and q integers
RPi         == CHOOSE s \in STRING : TRUE
RAdd(a, b)  == CHOOSE s \in STRING : TRUE
RSub(a, b)  == CHOOSE s \in STRING : TRUE
RMul(a, b)  == CHOOSE s \in STRING : TRUE
RDiv(a, b)  == CHOOSE s \in STRING : TRUE
RNeg(a)     == CHOOSE s \in STRING : TRUE
RAbs(a)     == CHOOSE s \in STRING : TRUE
RMax(a, b)  == CHOOSE s \in STRING : TRUE
RMin(a, b)  == CHOOSE s \in STRING : TRUE
RSqrt(a)    == CHOOSE s \in STRING : TRUE
RSin(a)     == CHOOSE s \in STRING : TRUE
RCos(a)     == CHOOSE s \in STRING : TRUE
RAsin(a)    == CHOOSE s \in STRING : TRUE
RAcos(a)    == CHOOSE s \in STRING : TRUE
RExp(a)     == CHOOSE s \in STRING : TRUE
RLn(a)      == CHOOSE s \in STRING : TRUE
RLt(a, b)   == CHOOSE v \in BOOLEAN : TRUE
RLeq(a, b)  == CHOOSE v \in BOOLEAN : TRUE
REq(a, b)   == CHOOSE v \in BOOLEAN : TRUE   \* numerically equal (0 = -0)
RRint(a)    == CHOOSE n \in Int : TRUE       \* nearest integer, ties to even; saturates
RTrunc(a)   == CHOOSE n \in Int : TRUE       \* towards zero; saturates
RFloat(a)   == CHOOSE s \in STRING : TRUE    \* rounded to single precision
RVal(a)     == CHOOSE s \in STRING : TRUE    \* a itself, parsed
RVals(q)    == CHOOSE s \in Seq(STRING) : TRUE    \* a sequence of reals, parsed
RStr(a)     == CHOOSE s \in STRING : TRUE    \* canonical spelling of a
RAtan(a)    == CHOOSE s \in STRING : TRUE
RIsNaN(a)   == CHOOSE v \in BOOLEAN : TRUE
RMaxAbs(q)  == CHOOSE s \in STRING : TRUE    \* largest absolute value of a sequence
(* n zeros, then val[k] added at position idx[k] for every k *)
RScatter(n, idx, val) == CHOOSE s \in Seq(STRING) : TRUE
RSum(s)     == CHOOSE v \in STRING : TRUE    \* left-to-right sum of a sequence
RDot(s, t)  == CHOOSE v \in STRING : TRUE    \* left-to-right sum of products
(* distance of a to the nearest rounding boundary of RRint / RTrunc *)
RRintGap(a) == CHOOSE s \in STRING : TRUE
RTruncGap(a) == CHOOSE s \in STRING : TRUE
(* |a-b| <= tol * max(scale, tiny); NaN is close to nothing *)
RClose(a, b, scale, tol) == CHOOSE v \in BOOLEAN : TRUE
=============================================================================
