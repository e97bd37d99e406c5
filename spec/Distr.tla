-------------------------------- MODULE Distr --------------------------------
(***************************************************************************)
(* Valid moments and named distributions.                                  *)
(***************************************************************************)
EXTENDS Psd

\* 5x5 matrix of the moments 0..8: raw = <<m0, .., m8>>
Hankel(raw) == TLCEval([i \in 1..5 |-> TLCEval([j \in 1..5 |-> raw[i + j - 1]])])
Eye(c) == TLCEval([i \in 1..5 |-> TLCEval([j \in 1..5 |-> IF i = j THEN c ELSE 0])])
Minus(A, B) == TLCEval([i \in 1..5 |-> TLCEval([j \in 1..5 |-> RSub(A[i][j], B[i][j])])])
\* lam is the largest eigenvalue of A within a relative error d (witness)
LargestIs(A, lam, d) == /\ RLt(0, lam)
                        /\ PosSemi(Minus(Eye(RMul(lam, RAdd(1, d))), A), 5)
                        /\ ~PosSemi(Minus(Eye(RMul(lam, RSub(1, d))), A), 5)
(* may a constructor accept these moments with threshold t; eps: relative   *)
(* accuracy of the eigenvalues; "" no exception                             *)
Outcomes(raw, t, lam, eps) ==
  IF RLt(t, 0) THEN {""}
  ELSE LET A == Hankel(raw) IN
    IF PosSemi(Shift(A, 5, RMul(lam, RSub(t, eps))), 5) THEN {""}
    ELSE IF ~PosSemi(Shift(A, 5, RMul(lam, RAdd(t, eps))), 5) THEN {"invalid_argument"}
    ELSE {"", "invalid_argument"}

-----------------------------------------------------------------------------
(* central moments 2..8                                                     *)
Binom == <<<<1>>, <<1, 1>>, <<1, 2, 1>>, <<1, 3, 3, 1>>, <<1, 4, 6, 4, 1>>, <<1, 5, 10, 10, 5, 1>>, <<1, 6, 15, 20, 15, 6, 1>>, <<1, 7, 21, 35, 35, 21, 7, 1>>, <<1, 8, 28, 56, 70, 56, 28, 8, 1>>>>
Fact == <<1, 1, 2, 6, 24, 120, 720, 5040>>       \* Fact[k+1] = k!
\* from the cumulants kap(2..8): mu_n = sum_j C(n-1, j-1) kappa_j mu_(n-j)
RECURSIVE CMom(_, _)
CMom(kap, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 0
  ELSE RSum([j \in 1..(n - 1) |-> RMul(RMul(Binom[n][j + 1], kap[j]), CMom(kap, n - j - 1))])
\* kap[j] = kappa_(j+1)
FromCumulants(kap) == [k \in 1..7 |-> CMom(kap, k + 1)]
Normal(sigma) == FromCumulants(<<RMul(sigma, sigma), 0, 0, 0, 0, 0, 0>>)
ChiSquare(k) == FromCumulants([j \in 1..7 |-> RMul(k, RMul(RPow(2, j), Fact[j + 1]))])
\* integral of x^n over [-w/2, w/2]
Uniform(w) == [k \in 1..7 |-> IF k % 2 = 0 THEN 0 ELSE RDiv(RPow(RMul(RFrac(1, 2), w), k + 1), k + 2)]
\* central moments 2..8 from s and standardized moments 3..8
FromStd(s, z) == [k \in 1..7 |-> IF k = 1 THEN RMul(s, s) ELSE RMul(z[k - 1], RPow(s, k + 1))]
=============================================================================
