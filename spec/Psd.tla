-------------------------------- MODULE Psd --------------------------------
(***************************************************************************)
(* Exact definiteness of symmetric matrices of rationals, by elimination.  *)
(* A matrix is a function [1..n -> [1..n -> rational]].                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, TLC

\* Schur complement of the element (1, 1), which is not 0
Schur(A, n) == TLCEval([i \in 1..(n - 1) |-> TLCEval([j \in 1..(n - 1) |->
                  RSub(A[i + 1][j + 1], RDiv(RMul(A[i + 1][1], A[1][j + 1]), A[1][1]))])])
Drop(A, n) == TLCEval([i \in 1..(n - 1) |-> TLCEval([j \in 1..(n - 1) |-> A[i + 1][j + 1]])])
RECURSIVE PosDef(_, _)
PosDef(A, n) == n = 0 \/ (RLt(0, A[1][1]) /\ (n = 1 \/ PosDef(Schur(A, n), n - 1)))
RECURSIVE PosSemi(_, _)
PosSemi(A, n) ==
  n = 0 \/ (IF RLt(0, A[1][1]) THEN n = 1 \/ PosSemi(Schur(A, n), n - 1)
            ELSE REq(A[1][1], 0) /\ (\A j \in 1..n : REq(A[1][j], 0)) /\ (n = 1 \/ PosSemi(Drop(A, n), n - 1)))
RECURSIVE TraceOf(_, _)
TraceOf(A, n) == IF n = 0 THEN 0 ELSE RAdd(A[n][n], TraceOf(A, n - 1))
RECURSIVE MaxAbs(_, _, _)
MaxAbs(A, n, k) == IF k = 0 THEN 0 ELSE RMax(RAbs(A[((k - 1) \div n) + 1][((k - 1) % n) + 1]), MaxAbs(A, n, k - 1))
Shift(A, n, d) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN RAdd(A[i][j], d) ELSE A[i][j]])])
ScaleDiag(A, n, f) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN RMul(A[i][j], f) ELSE A[i][j]])])

\* still positive definite when every variance is reduced by a fraction d
ClearlyPos(A, n, d) == PosDef(ScaleDiag(A, n, RSub(1, d)), n)
\* not positive semidefinite even with d times the largest element added to the variances
ClearlyNot(A, n, d) == ~PosSemi(Shift(A, n, RMul(d, MaxAbs(A, n, n * n))), n)
=============================================================================
