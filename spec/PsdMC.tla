------------------------------- MODULE PsdMC -------------------------------
(* Elimination agrees with the minors criteria on all small symmetric       *)
(* integer matrices.  Each matrix is printed (lower triangle) and given to  *)
(* ureals by harness/stat.cpp.                                              *)
EXTENDS Psd
CONSTANTS K, EMIT
VARIABLES d, o
Init == d \in [1..3 -> -1..K] /\ o = <<0, 0, 0>>
Next == o = <<0, 0, 0>> /\ o' \in [1..3 -> -K..K] /\ UNCHANGED d
A == <<<<d[1], o[1], o[2]>>, <<o[1], d[2], o[3]>>, <<o[2], o[3], d[3]>>>>
D2(i, j) == A[i][i] * A[j][j] - A[i][j] * A[j][i]
D3 == A[1][1] * D2(2, 3) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1]) + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
B == <<<<d[1], o[1]>>, <<o[1], d[2]>>>>
Agree ==
  /\ PosDef(A, 3) = (d[1] > 0 /\ D2(1, 2) > 0 /\ D3 > 0)
  /\ PosSemi(A, 3) = (d[1] >= 0 /\ d[2] >= 0 /\ d[3] >= 0 /\ D2(1, 2) >= 0 /\ D2(1, 3) >= 0 /\ D2(2, 3) >= 0 /\ D3 >= 0)
  /\ PosDef(B, 2) = (d[1] > 0 /\ D2(1, 2) > 0)
  /\ PosSemi(B, 2) = (d[1] >= 0 /\ d[2] >= 0 /\ D2(1, 2) >= 0)
  /\ ClearlyPos(A, 3, RFrac(1, 100)) => PosDef(A, 3)
  /\ ClearlyNot(A, 3, RFrac(1, 100)) => ~PosSemi(A, 3)
  /\ (PosDef(A, 3) /\ o # <<0, 0, 0>>) => ~ClearlyNot(A, 3, RFrac(1, 100))
Emit == IF ~EMIT THEN TRUE ELSE
  PrintT("P " \o ToString(d[1]) \o " " \o ToString(o'[1]) \o " " \o ToString(o'[2]) \o " " \o ToString(d[2]) \o " " \o ToString(o'[3]) \o " " \o ToString(d[3]))
=============================================================================
