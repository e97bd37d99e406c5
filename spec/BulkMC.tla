------------------------------- MODULE BulkMC -------------------------------
(***************************************************************************)
(* The operators of module Bulk (matrices, cumulants of quadratic forms of *)
(* normal variables) against those of module Second (sums over repeated    *)
(* indices, arbitrary variables), for all small expressions.               *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT WIDE
GS == IF WIDE THEN {-1, 0, 2} ELSE {0, 2}
HS == IF WIDE THEN {-2, 0, 1} ELSE {-1, 0}
B == INSTANCE Bulk
S == INSTANCE Second
N == 3
Normal == [i \in 1..N |-> <<1, 0, 3, 0, 15, 0, 105>>]
Vs == [n : {2}, g : [1..N -> GS], h : [1..S!NTri(N) -> HS]]
Ws == {[n |-> -3, g |-> <<1, 0, -2>>, h |-> <<1, -1, 0, 0, 2, 0>>], [n |-> 0, g |-> <<0, 1, 1>>, h |-> <<0, 1, 0, 1, 0, -1>>]}
Mat(v) == [n |-> v.n, g |-> v.g, H |-> [i \in 1..N |-> [j \in 1..N |-> v.h[S!Tri(i, j)]]]]
Same(a, b) == S!REq(a, b)
SameV(m, v) == /\ Same(m.n, v.n)
               /\ \A i \in 1..N : Same(m.g[i], v.g[i]) /\ \A j \in 1..N : Same(m.H[i][j], v.h[S!Tri(i, j)])
VARIABLES x, y, go
vars == <<x, y, go>>
Init == x \in Vs /\ y = x /\ go = FALSE
Next == ~go /\ go' = TRUE /\ y' \in Ws /\ UNCHANGED x
MomentsOK == ~go => LET q == S!Moments(x, Normal)  m == Mat(x) IN
  Same(q[1], B!M1(m)) /\ Same(q[2], B!Cov(m, m)) /\ Same(q[3], B!M3(m)) /\ Same(q[4], B!M4(m))
CovOK == go => Same(S!Cov2(x, y, Normal), B!Cov(Mat(x), Mat(y)))
ArithOK == go => LET a == S!Exact2(x)  b == S!Exact2(y) IN
  /\ SameV(B!Binary(Mat(x), Mat(y), 7, 2, -1, 3, 1, -2), S!Bi2(7, 2, -1, 3, 1, -2, a, b, N))
  /\ SameV(B!Unary(Mat(x), 4, -3, 5), S!Un2(4, -3, 5, a, N))
  /\ SameV(B!Mul(Mat(x), Mat(y)), S!Bi2(x.n * y.n, y.n, x.n, 0, 0, 1, a, b, N))
=============================================================================
