-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Expressions of many variables.                                          *)
(*                                                                         *)
(* An expression of the standardized base variables z_1..z_N is            *)
(*   [n |-> value, g |-> <<g_1, .., g_N>>, H |-> N x N matrix]             *)
(*   y = n + g'z + z'Hz / 2                                                *)
(* First-order variables have H = << >>.                                   *)
(*                                                                         *)
(* For normal base variables the moments of y follow from the cumulants of *)
(* a quadratic form, which is a derivation independent of the sums over    *)
(* repeated indices of the implementation (and of spec/Moments.tla):       *)
(*   K_r = (r-1)!/2 tr H^r + r!/2 g' H^(r-2) g                             *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, TLC, TLCExt
Unit(N, i, s) == [k \in 1..N |-> IF k = i THEN s ELSE 0]
Zero(N) == [k \in 1..N |-> 0]
MZero(N) == [k \in 1..N |-> Zero(N)]
MLin(p, A, q, B) == TLCEval([i \in 1..Len(A) |-> RAxpy(p, A[i], q, B[i])])
\* a b' + b a'
Sym(a, b) == TLCEval([i \in 1..Len(a) |-> RAxpy(a[i], b, b[i], a)])
MSum2(A, B) == MLin(1, A, 1, B)

\* z = f(x, y) with the given value and derivatives
Binary(x, y, f, dx, dy, dxx, dyy, dxy) ==
  [n |-> f,
   g |-> RAxpy(dx, x.g, dy, y.g),
   H |-> IF x.H = << >> THEN << >>
         ELSE LET L == MLin(dx, x.H, dy, y.H)
                  A == IF REq(dxx, 0) THEN L ELSE MLin(1, L, RMul(dxx, RFrac(1, 2)), Sym(x.g, x.g))
                  B == IF REq(dyy, 0) THEN A ELSE MLin(1, A, RMul(dyy, RFrac(1, 2)), Sym(y.g, y.g)) IN
              IF REq(dxy, 0) THEN B ELSE MLin(1, B, dxy, Sym(x.g, y.g))]
Lin(p, x, q, y) == Binary(x, y, RAdd(RMul(p, x.n), RMul(q, y.n)), p, q, 0, 0, 0)
Mul(x, y) == Binary(x, y, RMul(x.n, y.n), y.n, x.n, 0, 0, 1)
Unary(x, f, d, dd) == Binary(x, x, f, d, 0, dd, 0, 0)

TrProd(A, B) == RSum([i \in 1..Len(A) |-> RDot(A[i], B[i])])   \* tr(AB), symmetric
MVec(A, v) == [i \in 1..Len(A) |-> RDot(A[i], v)]
MMul(A, B) == TLCEval([i \in 1..Len(A) |-> MVec(B, A[i])])         \* B symmetric
M1(x) == RMul(RFrac(1, 2), RSum([i \in 1..Len(x.H) |-> x.H[i][i]]))
Cov(x, y) == IF x.H = << >> THEN RDot(x.g, y.g)
             ELSE RAdd(RDot(x.g, y.g), RMul(RFrac(1, 2), TrProd(x.H, y.H)))
M3(x) == LET h == MVec(x.H, x.g) IN RAdd(RMul(3, RDot(x.g, h)), TrProd(MMul(x.H, x.H), x.H))
M4(x) == LET h == MVec(x.H, x.g)  HH == MMul(x.H, x.H)  v == Cov(x, x) IN
         RAdd(RMul(3, RMul(v, v)), RAdd(RMul(12, RDot(h, h)), RMul(3, TrProd(HH, HH))))
\* bounds the terms that are added: rounding errors are relative to it
Norm(x) == RAdd(1, RAdd(RNorm1(x.g), IF x.H = << >> THEN 0 ELSE RSum([i \in 1..Len(x.H) |-> RNorm1(x.H[i])])))
=============================================================================
