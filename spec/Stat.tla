-------------------------------- MODULE Stat --------------------------------
(***************************************************************************)
(* Matrices of variables: ureals (correlated variables from a covariance   *)
(* matrix) and the helpers of stat.hpp.  Matrices are flat sequences.      *)
(***************************************************************************)
EXTENDS Psd

\* the matrix ureals reads: column-major lower triangle, mirrored
Triangle(c, n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> c[(IF i >= j THEN i ELSE j) + n * ((IF i >= j THEN j ELSE i) - 1)]])])

(* what ureals may do for n means and a matrix of size nc                   *)
Outcomes(n, nc, A, d) ==
  IF nc # n * n THEN {"invalid_argument"}
  ELSE IF n = 0 THEN {"ok"}
  ELSE IF ClearlyPos(A, n, d) THEN {"ok"}
  ELSE IF ClearlyNot(A, n, d) THEN {"runtime_error"}
  ELSE {"ok", "runtime_error"}          \* within rounding of the border
\* C (flat) reproduces A: |C_ij - A_ij| <= 2^-k sqrt(A_ii A_jj)
Reproduces(C, A, n, k) ==
  \A i \in 1..n : \A j \in 1..n :
    LET x == RSub(C[(i - 1) * n + j], A[i][j]) IN
    RLe(RMul(x, x), RMul(RPow(2, -2 * k), RMul(A[i][i], A[j][j])))

(* cov_matrix, corr_matrix: element (i, j) of the n by n result is the      *)
(* function of elements i and j of the input, which is symmetric: it may be *)
(* evaluated on (j, i), and to rounding relative to the diagonal            *)
Outer(out, f, n, k) ==
  Len(out) = n * n /\ \A i \in 1..n : \A j \in 1..n :
    LET o == out[(i - 1) * n + j]  a == f[(i - 1) * n + j]  b == f[(j - 1) * n + i]
        ii == RParse(f[(i - 1) * n + i])  jj == RParse(f[(j - 1) * n + j])
        Near(w) == LET x == RSub(RParse(o), w) IN RLe(RMul(x, x), RAbs(RMul(RPow(2, -2 * k), RMul(ii, jj)))) IN
    \/ o = a \/ o = b
    \/ RIsNum(RParse(o)) /\ RIsNum(ii) /\ RIsNum(jj) /\ RIsNum(RParse(a)) /\ RIsNum(RParse(b)) /\ (Near(RParse(a)) \/ Near(RParse(b)))
Corr2Cov(out, sigma, corr, n, k) ==
  Len(out) = n * n /\ \A i \in 1..n : \A j \in 1..n :
    LET p == (i - 1) * n + j  w == RMul(corr[p], RMul(sigma[i], sigma[j])) IN RClose(out[p], w, k, RAbs(w))
=============================================================================
