------------------------------- MODULE MathFn -------------------------------
(***************************************************************************)
(* Derivatives of the functions of math.hpp on their smooth domain.        *)
(* v: value of the standard function; w: auxiliary values of libm given    *)
(* with the event (see harness/mathfn.hpp).  A result is a sequence of     *)
(* <<value, scale>>.  MathTable.tla checks these formulas, and the meaning *)
(* of w, against central differences of the standard functions.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat
LOCAL E(x) == <<x, RAbs(x)>>
Ln2  == RParse("0.693147180559945309417232121458176568075500134360255254120680009")
Ln10 == RParse("2.302585092994045684017991454684364207601101488628772976033327901")
TwoOverSqrtPi == RParse("1.128379167095512573896158903121545171688101258657997713688171443")
Sgn(x) == IF RLt(x, 0) THEN -1 ELSE 1
Sq(x) == RMul(x, x)
Trunc(q) == IF RLt(q, 0) THEN RNeg(RFloor(RNeg(q))) ELSE RFloor(q)
Round(q) == RFloor(RAdd(q, RFrac(1, 2)))         \* never used at ties

\* <<first, second>> derivative of a function of one argument
D1(f, x, v, w) ==
  CASE f = "abs"   -> <<E(Sgn(x)), E(0)>>
    [] f \in {"exp", "expm1"} -> <<E(w[1]), E(w[1])>>
    [] f = "exp2"  -> <<E(RMul(Ln2, w[1])), E(RMul(Sq(Ln2), w[1]))>>
    [] f = "log"   -> <<E(RDiv(1, x)), E(RDiv(-1, Sq(x)))>>
    [] f = "log10" -> <<E(RDiv(1, RMul(x, Ln10))), E(RDiv(-1, RMul(Sq(x), Ln10)))>>
    [] f = "log2"  -> <<E(RDiv(1, RMul(x, Ln2))), E(RDiv(-1, RMul(Sq(x), Ln2)))>>
    [] f = "log1p" -> LET i == RDiv(1, RAdd(1, x)) IN <<E(i), E(RNeg(Sq(i)))>>
    [] f = "sqrt"  -> <<E(RDiv(1, RMul(2, w[1]))), E(RDiv(-1, RMul(4, RMul(x, w[1]))))>>
    [] f = "cbrt"  -> LET i == RDiv(1, RMul(3, Sq(w[1]))) IN <<E(i), E(RDiv(RMul(-2, i), RMul(3, x)))>>
    [] f = "sin"   -> <<E(w[2]), E(RNeg(w[1]))>>
    [] f = "cos"   -> <<E(RNeg(w[1])), E(RNeg(w[2]))>>
    [] f = "tan"   -> LET i == RDiv(1, Sq(w[2])) IN <<E(i), E(RMul(2, RMul(RDiv(w[1], w[2]), i)))>>
    [] f \in {"asin", "acos"} ->
         LET s == IF f = "asin" THEN 1 ELSE -1
             i == RDiv(s, w[1]) IN <<E(i), E(RMul(x, RDiv(i, Sq(w[1]))))>>
    [] f = "atan"  -> LET i == RDiv(1, RAdd(1, Sq(x))) IN <<E(i), E(RMul(-2, RMul(x, Sq(i))))>>
    [] f = "sinh"  -> <<E(w[2]), E(w[1])>>
    [] f = "cosh"  -> <<E(w[1]), E(w[2])>>
    \* 1 - tanh^2 is computed with cancellation: absolute accuracy
    [] f = "tanh"  -> LET i == RDiv(1, Sq(w[2])) t == RDiv(w[1], w[2]) IN
                      <<<<i, 1>>, <<RMul(-2, RMul(t, i)), RMul(2, RAbs(t))>>>>
    [] f = "asinh" -> LET i == RDiv(1, w[1]) IN <<E(i), E(RNeg(RMul(x, RMul(i, Sq(i)))))>>
    [] f = "acosh" -> LET i == RDiv(1, w[1]) IN <<E(i), E(RNeg(RMul(x, RMul(i, Sq(i)))))>>
    [] f = "atanh" -> LET i == RDiv(1, RSub(1, Sq(x))) IN <<E(i), E(RMul(2, RMul(x, Sq(i))))>>
    [] f \in {"erf", "erfc"} ->
         LET s == IF f = "erf" THEN 1 ELSE -1
             i == RMul(s, RMul(TwoOverSqrtPi, w[1])) IN <<E(i), E(RMul(-2, RMul(x, i)))>>

\* <<d/dx, d/dy, d2/dx2, d2/dy2, d2/dxdy>> of a function of two arguments
D2(f, x, y, v, w) ==
  CASE f = "fmod" -> <<E(1), E(RNeg(Trunc(RDiv(x, y)))), E(0), E(0), E(0)>>
    [] f = "remainder" -> <<E(1), E(RNeg(Round(RDiv(x, y)))), E(0), E(0), E(0)>>
    [] f = "fmax" -> LET c == RLt(y, x) IN <<E(IF c THEN 1 ELSE 0), E(IF c THEN 0 ELSE 1), E(0), E(0), E(0)>>
    [] f = "fmin" -> LET c == RLt(x, y) IN <<E(IF c THEN 1 ELSE 0), E(IF c THEN 0 ELSE 1), E(0), E(0), E(0)>>
    \* w = <<x^y, log x, x^(y-1), x^(y-2)>>; derivatives with respect to y only
    \* exist for x > 0
    [] f = "pow" -> <<E(RMul(y, w[3])), E(RMul(w[1], w[2])),
                      E(RMul(RMul(y, RSub(y, 1)), w[4])),
                      E(RMul(w[1], Sq(w[2]))),
                      <<RMul(w[3], RAdd(1, RMul(y, w[2]))),
                        RMul(RAbs(w[3]), RAdd(1, RAbs(RMul(y, w[2]))))>>>>
    [] f = "hypot" -> LET i == RDiv(1, w[1])  a == RMul(x, i)  b == RMul(y, i) IN
                      <<E(a), E(b), <<RMul(i, Sq(b)), i>>, <<RMul(i, Sq(a)), i>>, E(RNeg(RMul(RMul(a, b), i)))>>
    [] f = "atan2" -> LET i == RDiv(1, RAdd(Sq(x), Sq(y)))  ii == Sq(i)
                          xy2 == RMul(2, RMul(RMul(x, y), ii)) IN
                      <<E(RMul(y, i)), E(RNeg(RMul(x, i))), E(RNeg(xy2)), E(xy2),
                        <<RMul(RSub(Sq(x), Sq(y)), ii), RMul(RAdd(Sq(x), Sq(y)), ii)>>>>
=============================================================================
