-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* The traces recorded from the C++ library carry floating point numbers,  *)
(* which are dyadic rationals with far more than 32 bits, while TLC's own  *)
(* integers have 32 bits.  The operators below are therefore evaluated by  *)
(* TLC through a Java module override (java/RatOverrides.java, BigInteger  *)
(* numerators and denominators).  Their meaning is fixed by the pure TLA+  *)
(* definitions of module RatPure (pairs <<num, den>>), and RatTest.tla     *)
(* checks, exhaustively on small fractions, that the override agrees with  *)
(* these definitions.                                                      *)
(*                                                                         *)
(* A rational that is an integer representable in 32 bits IS that TLC      *)
(* integer, so 0, 1, -3 can be written literally.  Any other rational is   *)
(* an opaque atom.  Use REq, not =, to compare rationals.                  *)
(*                                                                         *)
(* Numbers read from a trace are strings: C++ hexadecimal floats           *)
(* ("-0x1.8p-3"), decimal integers ("12"), or "nan", "inf", "-inf", which  *)
(* RParse maps to the strings themselves; RIsNum tells them apart.         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL P == INSTANCE RatPure

RAdd(a, b) == P!Add(a, b)
RSub(a, b) == P!Sub(a, b)
RMul(a, b) == P!Mul(a, b)
RDiv(a, b) == P!Div(a, b)
RNeg(a)    == P!Neg(a)
RAbs(a)    == P!Abs(a)
RLt(a, b)  == P!Lt(a, b)
RLe(a, b)  == P!Le(a, b)
REq(a, b)  == P!Eq(a, b)
RMax(a, b) == IF P!Lt(a, b) THEN b ELSE a
RPow(a, k) == P!Pow(a, k)              \* k \in Int
RFrac(i, j) == P!Norm(<<i, j>>)        \* integers i, j # 0
RFloor(a)  == P!Floor(a)               \* a rational (integer)
RSum(s)    == P!Sum(s)                 \* sum of a sequence
RDot(s, t) == P!Dot(s, t)              \* sum of the products of two sequences
RNorm1(s)  == P!Norm1(s)               \* sum of the absolute values
RAxpy(a, s, b, t) == P!Axpy(a, s, b, t)  \* [i |-> a*s[i] + b*t[i]]
\* |a - b| <= 2^(-k) * scale
RClose(a, b, k, scale) == P!Le(P!Abs(P!Sub(a, b)), P!Mul(P!Pow(<<2, 1>>, -k), scale))
RParse(str) == CHOOSE x : TRUE         \* only through the override
RIsNum(x)   == CHOOSE b \in BOOLEAN : TRUE   \* FALSE for "nan", "inf", "-inf"
RToInt(a)   == P!ToInt(a)              \* a an integer in 32 bits
RToStr(a)   == CHOOSE s \in STRING : TRUE    \* for messages and generated scripts
=============================================================================
