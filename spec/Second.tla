------------------------------- MODULE Second -------------------------------
(***************************************************************************)
(* Second-order error propagation: the abstract meaning of a UReal2.       *)
(*                                                                         *)
(* The world has independent base variables 1..m with central moments      *)
(* M[i][k] (k = 2..8).  With d_i the deviation of base i from its mean, a  *)
(* variable is abstractly the quadratic                                    *)
(*        n  +  sum_i g[i] d_i  +  1/2 sum_ij h[i,j] d_i d_j               *)
(* Everything the public interface reports follows from it: the mean and   *)
(* the derivatives with respect to base variables are n, g, h; moments,    *)
(* covariances and estimates are expectations of the quadratic.            *)
(*                                                                         *)
(* h is the upper triangle, element (i, j) at Tri(i, j), so that a new     *)
(* base variable appends elements.  Computed values carry scales (ns, gs,  *)
(* hs: sums of absolute values of the terms).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat, TLC

Tri(i, j) == IF i <= j THEN (j * (j - 1)) \div 2 + i ELSE (i * (i - 1)) \div 2 + j
NTri(m) == (m * (m + 1)) \div 2
\* the pair (i, j), i <= j, of position p
RECURSIVE ColOf(_, _)
ColOf(p, j) == IF p <= NTri(j) THEN j ELSE ColOf(p, j + 1)
PairOf == TLCEval([p \in 1..36 |-> LET j == ColOf(p, 1) IN <<p - NTri(j - 1), j>>])

AbsSeq(s) == [i \in 1..Len(s) |-> RAbs(s[i])]
Zeros(n) == [i \in 1..n |-> 0]
Const2(c, m) == [n |-> c, ns |-> RAbs(c), g |-> Zeros(m), gs |-> Zeros(m), h |-> Zeros(NTri(m)), hs |-> Zeros(NTri(m))]
Exact2(v) == [n |-> v.n, ns |-> RAbs(v.n), g |-> v.g, gs |-> AbsSeq(v.g), h |-> v.h, hs |-> AbsSeq(v.h)]
Base2(n, b, m) == Exact2([n |-> n, g |-> [i \in 1..m |-> IF i = b THEN 1 ELSE 0], h |-> Zeros(NTri(m))])

(* Second-order chain rule for a function of Len(xs) variables: value mu,   *)
(* first derivatives d[a], second derivatives dd[a][b], with scales         *)
Chain2(mu, mus, d, ds, dd, dds, xs, m) ==
  LET N == Len(xs)
      at(k) == <<((k - 1) \div N) + 1, ((k - 1) % N) + 1>> IN
  [n |-> mu, ns |-> mus,
   g |-> [i \in 1..m |-> RSum([a \in 1..N |-> RMul(d[a], xs[a].g[i])])],
   gs |-> [i \in 1..m |-> RSum([a \in 1..N |-> RMul(ds[a], xs[a].gs[i])])],
   h |-> [p \in 1..NTri(m) |-> LET i == PairOf[p][1] j == PairOf[p][2] IN
            RAdd(RSum([a \in 1..N |-> RMul(d[a], xs[a].h[p])]),
                 RSum([k \in 1..(N * N) |-> LET a == at(k)[1] b == at(k)[2] IN
                        RMul(dd[a][b], RMul(xs[a].g[i], xs[b].g[j]))]))],
   hs |-> [p \in 1..NTri(m) |-> LET i == PairOf[p][1] j == PairOf[p][2] IN
            RAdd(RSum([a \in 1..N |-> RMul(ds[a], xs[a].hs[p])]),
                 RSum([k \in 1..(N * N) |-> LET a == at(k)[1] b == at(k)[2] IN
                        RMul(dds[a][b], RMul(xs[a].gs[i], xs[b].gs[j]))]))]]

Un2(mu, d, dd, x, m) == Chain2(mu, RAbs(mu), <<d>>, <<RAbs(d)>>, <<<<dd>>>>, <<<<RAbs(dd)>>>>, <<x>>, m)
Bi2(mu, dx, dy, dxx, dyy, dxy, x, y, m) ==
  Chain2(mu, RAbs(mu), <<dx, dy>>, AbsSeq(<<dx, dy>>),
         <<<<dxx, dxy>>, <<dxy, dyy>>>>, <<AbsSeq(<<dxx, dxy>>), AbsSeq(<<dxy, dyy>>)>>, <<x, y>>, m)

(* eta: second derivatives smaller than eta may underflow to 0              *)
Arith2(f, x, y, m, eta) ==
  CASE f = "add" -> Chain2(RAdd(x.n, y.n), RAdd(x.ns, y.ns), <<1, 1>>, <<1, 1>>, <<<<0, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<0, 0>>>>, <<x, y>>, m)
    [] f = "sub" -> Chain2(RSub(x.n, y.n), RAdd(x.ns, y.ns), <<1, -1>>, <<1, 1>>, <<<<0, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<0, 0>>>>, <<x, y>>, m)
    [] f = "mul" -> Chain2(RMul(x.n, y.n), RMul(x.ns, y.ns), <<y.n, x.n>>, <<y.ns, x.ns>>, <<<<0, 1>>, <<1, 0>>>>, <<<<0, 1>>, <<1, 0>>>>, <<x, y>>, m)
    [] f = "div" -> LET i == RDiv(1, y.n)  q == RMul(x.n, i)
                        is == RAbs(i)  qs == RMul(x.ns, is)  ii == RMul(i, i) IN
                    Chain2(q, qs, <<i, RNeg(RMul(q, i))>>, <<is, RMul(qs, is)>>,
                           <<<<0, RNeg(ii)>>, <<RNeg(ii), RMul(2, RMul(q, ii))>>>>,
                           <<<<0, RMax(ii, eta)>>, <<RMax(ii, eta), RMax(RMul(2, RMul(qs, ii)), eta)>>>>, <<x, y>>, m)

-----------------------------------------------------------------------------
(* Expectations.  The quadratic minus n is a polynomial in d_1..d_m; a       *)
(* monomial d_1^e1 ... d_m^em is coded as sum_i e_i 9^(i-1), so that codes   *)
(* of products add.  Independence: its expectation is the product of the     *)
(* central moments M[i][e_i].                                                *)
Pow9 == <<1, 9, 81, 729, 6561, 59049, 531441>>
Digit(code, i) == (code \div Pow9[i]) % 9
\* moment of order e of base i; mi = <<M2, .., M8>>
Mu(mi, e) == CASE e = 0 -> 1 [] e = 1 -> 0 [] OTHER -> mi[e - 1]
RECURSIVE MomProd(_, _, _)
MomProd(code, M, i) == IF i = 0 THEN 1 ELSE
  LET r == Mu(M[i], Digit(code, i)) IN IF r = 0 THEN 0 ELSE RMul(r, MomProd(code, M, i - 1))
EMono(code, M) == MomProd(code, M, Len(M))

\* the quadratic as a sequence of <<code, coefficient>> without zero terms
Nonzero(s) == SelectSeq(s, LAMBDA t : ~REq(t[2], 0))
Quad(g, h, m) ==
  Nonzero([i \in 1..m |-> <<Pow9[i], g[i]>>] \o
          [p \in 1..NTri(m) |-> LET i == PairOf[p][1] j == PairOf[p][2] IN
             <<Pow9[i] + Pow9[j], IF i = j THEN RMul(RFrac(1, 2), h[p]) ELSE h[p]>>])
AbsQ(q) == [k \in 1..Len(q) |-> <<q[k][1], RAbs(q[k][2])>>]
AbsM(M) == [i \in 1..Len(M) |-> AbsSeq(M[i])]

\* product of two polynomials, like terms collected
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
PMul(q, r) ==
  LET nq == Len(q)  nr == Len(r)
      codes == TLCEval(SeqOf({q[a][1] + r[b][1] : a \in 1..nq, b \in 1..nr}))
      co(c) == RSum([k \in 1..(nq * nr) |-> LET a == ((k - 1) \div nr) + 1  b == ((k - 1) % nr) + 1 IN
                       IF q[a][1] + r[b][1] = c THEN RMul(q[a][2], r[b][2]) ELSE 0]) IN
  TLCEval([k \in 1..Len(codes) |-> <<codes[k], co(codes[k])>>])
\* expectation of q * r
EProd(q, r, M) ==
  LET nr == Len(r)
      tab == TLCEval([c \in {q[a][1] + r[b][1] : a \in 1..Len(q), b \in 1..nr} |-> EMono(c, M)])
      rc == TLCEval([b \in 1..nr |-> r[b][2]]) IN
  RSum([a \in 1..Len(q) |-> RMul(q[a][2], RDot(rc, [b \in 1..nr |-> tab[q[a][1] + r[b][1]]]))])
EPoly(q, M) == RSum([a \in 1..Len(q) |-> RMul(q[a][2], EMono(q[a][1], M))])

\* the raw moments E[q], .., E[q^4]
Raw(q, M, k) == CASE k = 1 -> EPoly(q, M)
                  [] k = 2 -> EProd(q, q, M)
                  [] k = 3 -> EProd(q, PMul(q, q), M)
                  [] k = 4 -> LET s == PMul(q, q) IN EProd(s, s, M)
\* moments of the variable: m(1) and the central moments m(2)..m(4), from raw
Center(e) ==
  LET e1 == e[1]
      c2 == RSub(e[2], RMul(e1, e1))
      c3 == RSub(e[3], RMul(e1, RAdd(RMul(3, c2), RMul(e1, e1))))
      c4 == RSub(e[4], RMul(e1, RAdd(RMul(4, c3), RMul(e1, RAdd(RMul(6, c2), RMul(e1, e1)))))) IN
  <<e1, c2, c3, c4>>
CenterScale(e) ==
  LET e1 == e[1]
      c2 == RAdd(e[2], RMul(e1, e1))
      c3 == RAdd(e[3], RMul(e1, RAdd(RMul(3, c2), RMul(e1, e1))))
      c4 == RAdd(e[4], RMul(e1, RAdd(RMul(4, c3), RMul(e1, RAdd(RMul(6, c2), RMul(e1, e1)))))) IN
  <<e1, c2, c3, c4>>
Moments(v, M) == LET q == TLCEval(Quad(v.g, v.h, Len(v.g))) IN Center(TLCEval([k \in 1..4 |-> Raw(q, M, k)]))
MomentScales(v, M) ==
  LET q == TLCEval(AbsQ(Quad(v.g, v.h, Len(v.g)))) A == TLCEval(AbsM(M)) IN CenterScale(TLCEval([k \in 1..4 |-> Raw(q, A, k)]))
M1of(v, M) == EPoly(Quad(v.g, v.h, Len(v.g)), M)
Cov2(x, y, M) ==
  LET p == TLCEval(Quad(x.g, x.h, Len(x.g)))  q == TLCEval(Quad(y.g, y.h, Len(y.g))) IN
  RSub(EProd(p, q, M), RMul(EPoly(p, M), EPoly(q, M)))
Cov2Scale(x, y, M) ==
  LET p == TLCEval(AbsQ(Quad(x.g, x.h, Len(x.g))))  q == TLCEval(AbsQ(Quad(y.g, y.h, Len(y.g))))  A == AbsM(M) IN
  RAdd(EProd(p, q, A), RMul(EPoly(p, A), EPoly(q, A)))

-----------------------------------------------------------------------------
(* Derivatives with respect to a variable x that depends on one base b only: *)
(* dy/dx = y_b / x_b, d2y/dx2 = (y_bb - (y_b / x_b) x_bb) / x_b^2, and       *)
(* d2y/dxdz = y_bc / (x_b z_c) if z depends on another base c.               *)
Dep2(v) == {i \in 1..Len(v.g) : ~REq(v.g[i], 0) \/ \E j \in 1..Len(v.g) : ~REq(v.h[Tri(i, j)], 0)}
Grad2(y, x, b) == RDiv(y.g[b], x.g[b])
HessOff(y, x, b, z, c) == RDiv(y.h[Tri(b, c)], RMul(x.g[b], z.g[c]))
HessDiag(y, x, b) ==
  RDiv(RSub(y.h[Tri(b, b)], RMul(RDiv(y.g[b], x.g[b]), x.h[Tri(b, b)])), RMul(x.g[b], x.g[b]))
HessDiagScale(y, x, b) ==
  RDiv(RAdd(RAbs(y.h[Tri(b, b)]), RAbs(RMul(RDiv(y.g[b], x.g[b]), x.h[Tri(b, b)]))), RMul(x.g[b], x.g[b]))
IdentityOK2(v, sup, ids, ind, id) ==
  CASE sup = {} -> ind /\ id = 0
    [] Cardinality(sup) = 1 -> LET b == CHOOSE i \in sup : TRUE IN ind /\ id = ids[b]
    [] OTHER -> Cardinality(Dep2(v)) >= 2 => (~ind /\ id = -1)
=============================================================================
