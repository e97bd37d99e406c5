-------------------------------- MODULE Poly --------------------------------
(* Polynomials p(x, y) = sum c[4i+j+1] (x S)^i (y S)^j, 0 <= i, j <= 3, the  *)
(* user functions given to the factories of functions.hpp, and the documented*)
(* difference quotients.                                                     *)
EXTENDS Integers, Sequences, Rat
LOCAL Ix == 0..3
\* value of d^a/dx^a d^b/dy^b p, with coefficients transformed by tr
RECURSIVE Fall(_, _)
Fall(i, a) == IF a = 0 THEN 1 ELSE IF i = 0 THEN 0 ELSE i * Fall(i - 1, a - 1)
LOCAL PTerm(c, S, i, j, a, b, x, y) ==
  LET k == c[4*i + j + 1] * Fall(i, a) * Fall(j, b) IN
  IF k = 0 THEN 0
  ELSE RMul(RMul(k, RPow(S, i + j)), RMul(RPow(x, i - a), RPow(y, j - b)))
PD(c, S, a, b, x, y) == RSum([t \in 1..16 |-> PTerm(c, S, (t - 1) \div 4, (t - 1) % 4, a, b, x, y)])
P(c, S, x, y) == PD(c, S, 0, 0, x, y)
\* with absolute values: a bound used as scale
PDAbs(c, S, a, b, x, y) ==
  PD([t \in 1..16 |-> IF c[t] < 0 THEN -c[t] ELSE c[t]], RAbs(S), a, b, RAbs(x), RAbs(y))
\* forward differences, step h
FwdX(c, S, x, y, h) == RDiv(RSub(P(c, S, RAdd(x, h), y), P(c, S, x, y)), h)
FwdY(c, S, x, y, h) == RDiv(RSub(P(c, S, x, RAdd(y, h)), P(c, S, x, y)), h)
\* forward difference of the derivative (a, b)
FwdDX(c, a, b, x, y, h) == RDiv(RSub(PD(c, 1, a, b, RAdd(x, h), y), PD(c, 1, a, b, x, y)), h)
FwdDY(c, a, b, x, y, h) == RDiv(RSub(PD(c, 1, a, b, x, RAdd(y, h)), PD(c, 1, a, b, x, y)), h)
\* central differences
CenX(c, S, x, y, h) == RDiv(RSub(P(c, S, RAdd(x, h), y), P(c, S, RSub(x, h), y)), RMul(2, h))
CenY(c, S, x, y, h) == RDiv(RSub(P(c, S, x, RAdd(y, h)), P(c, S, x, RSub(y, h))), RMul(2, h))
CenXX(c, S, x, y, h) ==
  RDiv(RSub(RAdd(P(c, S, RAdd(x, h), y), P(c, S, RSub(x, h), y)), RMul(2, P(c, S, x, y))), RMul(h, h))
CenYY(c, S, x, y, h) ==
  RDiv(RSub(RAdd(P(c, S, x, RAdd(y, h)), P(c, S, x, RSub(y, h))), RMul(2, P(c, S, x, y))), RMul(h, h))
CenXY(c, S, x, y, h) ==
  LET xp == RAdd(x, h) xm == RSub(x, h) yp == RAdd(y, h) ym == RSub(y, h) IN
  RDiv(RSum(<<P(c, S, xp, yp), P(c, S, xm, ym),
              RNeg(P(c, S, xp, y)), RNeg(P(c, S, xm, y)), RNeg(P(c, S, x, yp)), RNeg(P(c, S, x, ym)),
              RMul(2, P(c, S, x, y))>>), RMul(2, RMul(h, h)))
\* bound on the values entering a quotient
QScale(c, S, a, b, x, y, h) == PDAbs(c, S, a, b, RAdd(RAbs(x), RAbs(h)), RAdd(RAbs(y), RAbs(h)))
=============================================================================
