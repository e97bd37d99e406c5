------------------------------ MODULE SecondMC ------------------------------
(***************************************************************************)
(* The operators of module Second against their definitions, exhaustively  *)
(* on small quadratics:                                                    *)
(*  - moments and covariances against direct enumeration of the outcomes   *)
(*    of base variables with finite support;                               *)
(*  - the second-order chain rule and the arithmetic operations against    *)
(*    products of polynomials in the deviations truncated at degree 2.     *)
(***************************************************************************)
EXTENDS Second
CONSTANTS WIDE
GS == IF WIDE THEN {0, 1, -2} ELSE {0, -2}
HS == IF WIDE THEN {0, -3} ELSE {0, 3}
m == 2
\* two base variables: outcomes <<value, weight>>, mean 0
Dist == <<<<<<-1, 2>>, <<2, 1>>>>, <<<<-3, 1>>, <<0, 2>>, <<1, 3>>>>>>
W == <<3, 6>>
IPow(a, k) == LET RECURSIVE P(_) P(j) == IF j = 0 THEN 1 ELSE a * P(j - 1) IN P(k)
M == TLCEval([i \in 1..m |-> [k \in 1..7 |-> RDiv(RSum([o \in 1..Len(Dist[i]) |-> Dist[i][o][2] * IPow(Dist[i][o][1], k + 1)]), W[i])]])

Vs(ns) == [n : ns, g : [1..m -> GS], h : [1..NTri(m) -> HS]]
VARIABLES x, y, d, go
vars == <<x, y, d, go>>
Ds == {[x |-> -1, y |-> 3, xx |-> 1, yy |-> -2, xy |-> 5], [x |-> 2, y |-> 0, xx |-> 0, yy |-> 1, xy |-> 0]}
Init == x \in Vs({2}) /\ y = x /\ d \in Ds /\ go = FALSE
Next == ~go /\ go' = TRUE /\ y' \in Vs({-3}) /\ UNCHANGED <<x, d>>

\* value of the quadratic (minus n) at an outcome, doubled to stay integer
At(v, o1, o2) == LET a == Dist[1][o1][1] b == Dist[2][o2][1] IN
  2 * (v.g[1] * a + v.g[2] * b) + v.h[1] * a * a + 2 * v.h[2] * a * b + v.h[3] * b * b
Outcomes == TLCEval(SeqOf((1..Len(Dist[1])) \X (1..Len(Dist[2]))))
\* sum over the outcomes of a function, divided by the total weight
Ex(F(_, _)) == RDiv(RSum([k \in 1..Len(Outcomes) |-> RMul(Dist[1][Outcomes[k][1]][2] * Dist[2][Outcomes[k][2]][2], F(Outcomes[k][1], Outcomes[k][2]))]), W[1] * W[2])
Half(r) == RMul(RFrac(1, 2), r)
Val(v, a, b) == Half(At(v, a, b))
Mean(v) == Ex(LAMBDA a, b : Val(v, a, b))
Central(v, k) == LET mu == Mean(v) IN Ex(LAMBDA a, b : RPow(RSub(Val(v, a, b), mu), k))
MomentsOK == ~go =>
  LET q == Moments(x, M) IN
  /\ REq(q[1], Mean(x)) /\ REq(q[2], Central(x, 2)) /\ REq(q[3], Central(x, 3)) /\ REq(q[4], Central(x, 4))
  /\ REq(M1of(x, M), Mean(x))
CovOK == go => LET mx == Mean(x) my == Mean(y) IN
  /\ REq(Cov2(x, y, M), Ex(LAMBDA a, b : RMul(RSub(Val(x, a, b), mx), RSub(Val(y, a, b), my))))
  /\ REq(Cov2(x, x, M), Central(x, 2))

-----------------------------------------------------------------------------
\* polynomials in d_1, d_2 up to degree 2: <<1, d1, d2, d1^2, d1 d2, d2^2>>
Pl(v) == <<v.n, v.g[1], v.g[2], Half(v.h[1]), v.h[2], Half(v.h[3])>>
Un0(v) == [Pl(v) EXCEPT ![1] = 0]
PTimes(p, q) == << RMul(p[1], q[1]),
   RAdd(RMul(p[1], q[2]), RMul(p[2], q[1])), RAdd(RMul(p[1], q[3]), RMul(p[3], q[1])),
   RSum(<<RMul(p[1], q[4]), RMul(p[2], q[2]), RMul(p[4], q[1])>>),
   RSum(<<RMul(p[1], q[5]), RMul(p[2], q[3]), RMul(p[3], q[2]), RMul(p[5], q[1])>>),
   RSum(<<RMul(p[1], q[6]), RMul(p[3], q[3]), RMul(p[6], q[1])>>) >>
PPlus(p, q) == [i \in 1..6 |-> RAdd(p[i], q[i])]
PScale(a, p) == [i \in 1..6 |-> RMul(a, p[i])]
Same(p, q) == \A i \in 1..6 : REq(p[i], q[i])
ArithOK == go =>
  /\ Same(Pl(Arith2("add", Exact2(x), Exact2(y), m, 0)), PPlus(Pl(x), Pl(y)))
  /\ Same(Pl(Arith2("sub", Exact2(x), Exact2(y), m, 0)), PPlus(Pl(x), PScale(-1, Pl(y))))
  /\ Same(Pl(Arith2("mul", Exact2(x), Exact2(y), m, 0)), PTimes(Pl(x), Pl(y)))
  /\ Same(PTimes(Pl(Arith2("div", Exact2(x), Exact2(y), m, 0)), Pl(y)), Pl(x))
BiOK == go =>
  LET X == Un0(x) Y == Un0(y)
      want == PPlus(<<7, 0, 0, 0, 0, 0>>, PPlus(PPlus(PScale(d.x, X), PScale(d.y, Y)),
              PPlus(PScale(Half(d.xx), PTimes(X, X)), PPlus(PScale(Half(d.yy), PTimes(Y, Y)), PScale(d.xy, PTimes(X, Y)))))) IN
  /\ Same(Pl(Bi2(7, d.x, d.y, d.xx, d.yy, d.xy, Exact2(x), Exact2(y), m)), want)
  /\ Same(Pl(Un2(7, d.x, d.xx, Exact2(x), m)), PPlus(<<7, 0, 0, 0, 0, 0>>, PPlus(PScale(d.x, X), PScale(Half(d.xx), PTimes(X, X)))))
\* scales bound the values
ScalesOK == go =>
  LET r == Bi2(7, d.x, d.y, d.xx, d.yy, d.xy, Exact2(x), Exact2(y), m) s == MomentScales(x, M) q == Moments(x, M) IN
  /\ \A i \in 1..m : RLe(RAbs(r.g[i]), r.gs[i])
  /\ \A p \in 1..NTri(m) : RLe(RAbs(r.h[p]), r.hs[p])
  /\ \A k \in 1..4 : RLe(RAbs(q[k]), s[k])
=============================================================================
