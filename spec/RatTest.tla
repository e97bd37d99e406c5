------------------------------ MODULE RatTest ------------------------------
(* Agreement of the Java override of Rat with RatPure, on all pairs of      *)
(* fractions with small numerators and denominators.                        *)
EXTENDS Integers, Sequences, TLC, Rat
P == INSTANCE RatPure
CONSTANT K
VARIABLES a, b
Fr == {f \in (-K..K) \X (1..K) : P!Gcd(P!IAbs(f[1]), f[2]) = 1}
L(p) == RFrac(p[1], p[2])          \* lift a reference value
Init == a \in Fr /\ b \in Fr
Next == UNCHANGED <<a, b>>
Agree ==
  LET x == L(a)  y == L(b)  s == <<a, b, a>>  t == <<b, b, a>>
      S == <<x, y, x>>  T == <<y, y, x>> IN
  /\ REq(RAdd(x, y), L(P!Add(a, b)))
  /\ REq(RSub(x, y), L(P!Sub(a, b)))
  /\ REq(RMul(x, y), L(P!Mul(a, b)))
  /\ b[1] # 0 => REq(RDiv(x, y), L(P!Div(a, b)))
  /\ REq(RNeg(x), L(P!Neg(a))) /\ REq(RAbs(x), L(P!Abs(a)))
  /\ RLt(x, y) = P!Lt(a, b) /\ RLe(x, y) = P!Le(a, b) /\ REq(x, y) = P!Eq(a, b)
  /\ REq(RMax(x, y), IF P!Lt(a, b) THEN y ELSE x)
  /\ \A k \in (IF a[1] = 0 THEN 0..3 ELSE -3..3) : REq(RPow(x, k), L(P!Pow(a, k)))
  /\ REq(RFloor(x), L(P!Floor(a)))
  /\ REq(RSum(S), L(P!Sum(s))) /\ REq(RDot(S, T), L(P!Dot(s, t))) /\ REq(RNorm1(S), L(P!Norm1(s)))
  /\ LET v == RAxpy(x, S, y, T) w == P!Axpy(a, s, b, t) IN \A i \in 1..3 : REq(v[i], L(w[i]))
  /\ \A k \in -2..2 : RClose(x, y, k, RAbs(x)) =
       P!Le(P!Abs(P!Sub(a, b)), P!Mul(P!Pow(<<2, 1>>, -k), P!Abs(a)))
  /\ RIsNum(x) /\ ~RIsNum(RParse("nan")) /\ ~RIsNum(RParse("-inf"))
  /\ REq(RParse("0x1.8p-3"), RFrac(3, 16)) /\ REq(RParse("-0xc.8p+1"), -25) /\ REq(RParse("12"), 12)
  /\ REq(RParse("-2.50"), RFrac(-5, 2))
=============================================================================
