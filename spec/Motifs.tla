------------------------------- MODULE Motifs -------------------------------
(***************************************************************************)
(* Moments of a quadratic form of independent standardized variables       *)
(*       q = sum_i G_i d_i + sum_ij H_ij d_i d_j      (H symmetric)        *)
(* as the library computes them: the expectation of q^k is a sum over      *)
(* "motifs" (which indices of the k factors coincide), each summed over    *)
(* distinct variables.  A motif <<label, c, gs, hs>> stands for            *)
(*   c sum_{i,j,k,l distinct} prod G_gs prod H_hs prod V_(times it occurs) *)
(* The tables below are those of internal/moments.hpp (with its labels).   *)
(* Invariants: for every pattern of nonzero terms the motif sums are the   *)
(* expectations of module Second, which expands the polynomial; every      *)
(* motif is needed.  A state is a pair of patterns; each is printed as a   *)
(* program with the expected moments (or covariance) that h2s.cpp runs on  *)
(* the real class.                                                         *)
(*                                                                         *)
(* A moment of order k involves at most k different variables (each index  *)
(* occurs twice at least, as the variables have zero mean), so four        *)
(* variables exhibit every motif.                                          *)
(***************************************************************************)
EXTENDS Second
CONSTANTS N,        \* variables
          WHAT,     \* "mom": moments of one quadratic; "cov": covariance of two
          START,    \* "none": from no terms; "blocks": from any of all/no gradients, all/no squares
          TERMS,    \* terms that are added: "all", "cross", "diag"
          MAXT,     \* at most so many terms are added to each
          EMIT, BUG

Table2 == <<
  <<"A1", 1, <<1, 1>>, << >>>>,
  <<"A2", 2, <<1>>, <<<<1,1>>>>>>,
  <<"A3", 1, << >>, <<<<1,1>>, <<1,1>>>>>>,
  <<"B1", 2, << >>, <<<<1,2>>, <<1,2>>>>>>,
  <<"B2", 1, << >>, <<<<1,1>>, <<2,2>>>>>> >>
Table3 == <<
  <<"A1", 1, <<1, 1, 1>>, << >>>>,
  <<"A2", 3, <<1, 1>>, <<<<1,1>>>>>>,
  <<"B1", 3, <<2, 2>>, <<<<1,1>>>>>>,
  <<"D1", 6, <<1, 2>>, <<<<1,2>>>>>>,
  <<"A3", 3, <<1>>, <<<<1,1>>, <<1,1>>>>>>,
  <<"D2", 12, <<2>>, <<<<1,1>>, <<1,2>>>>>>,
  <<"D3", 12, <<1>>, <<<<1,2>>, <<1,2>>>>>>,
  <<"B2", 6, <<1>>, <<<<1,1>>, <<2,2>>>>>>,
  <<"A4", 1, << >>, <<<<1,1>>, <<1,1>>, <<1,1>>>>>>,
  <<"D4", 12, << >>, <<<<1,1>>, <<1,2>>, <<1,2>>>>>>,
  <<"B3", 3, << >>, <<<<1,1>>, <<1,1>>, <<2,2>>>>>>,
  <<"D5", 4, << >>, <<<<1,2>>, <<1,2>>, <<1,2>>>>>>,
  <<"D6", 6, << >>, <<<<1,1>>, <<1,2>>, <<2,2>>>>>>,
  <<"E1", 8, << >>, <<<<1,2>>, <<1,3>>, <<2,3>>>>>>,
  <<"F1", 6, << >>, <<<<1,1>>, <<2,3>>, <<2,3>>>>>>,
  <<"C1", 1, << >>, <<<<1,1>>, <<2,2>>, <<3,3>>>>>> >>
Table4 == <<
  <<"A1", 1, <<1, 1, 1, 1>>, << >>>>,
  <<"B1", 3, <<1, 1, 2, 2>>, << >>>>,
  <<"A2", 4, <<1, 1, 1>>, <<<<1,1>>>>>>,
  <<"B2", 12, <<1, 2, 2>>, <<<<1,1>>>>>>,
  <<"E1", 24, <<1, 1, 2>>, <<<<1,2>>>>>>,
  <<"B3", 4, <<1, 1, 1>>, <<<<2,2>>>>>>,
  <<"A3", 6, <<1, 1>>, <<<<1,1>>, <<1,1>>>>>>,
  <<"B4", 6, <<2, 2>>, <<<<1,1>>, <<1,1>>>>>>,
  <<"E2", 48, <<1, 2>>, <<<<1,1>>, <<1,2>>>>>>,
  <<"E3", 24, <<1, 1>>, <<<<1,2>>, <<1,2>>>>>>,
  <<"B6", 12, <<1, 1>>, <<<<1,1>>, <<2,2>>>>>>,
  <<"E4", 24, <<2, 2>>, <<<<1,1>>, <<1,2>>>>>>,
  <<"E5", 24, <<1, 2>>, <<<<1,2>>, <<1,2>>>>>>,
  <<"B7", 12, <<1, 2>>, <<<<1,1>>, <<2,2>>>>>>,
  <<"C1", 6, <<3, 3>>, <<<<1,1>>, <<2,2>>>>>>,
  <<"F1", 24, <<2, 3>>, <<<<1,1>>, <<2,3>>>>>>,
  <<"G1", 48, <<1, 2>>, <<<<1,3>>, <<2,3>>>>>>,
  <<"F2", 12, <<1, 1>>, <<<<2,3>>, <<2,3>>>>>>,
  <<"A4", 4, <<1>>, <<<<1,1>>, <<1,1>>, <<1,1>>>>>>,
  <<"E6", 24, <<2>>, <<<<1,1>>, <<1,1>>, <<1,2>>>>>>,
  <<"E7", 48, <<1>>, <<<<1,1>>, <<1,2>>, <<1,2>>>>>>,
  <<"B8", 12, <<1>>, <<<<1,1>>, <<1,1>>, <<2,2>>>>>>,
  <<"E8", 48, <<2>>, <<<<1,1>>, <<1,2>>, <<1,2>>>>>>,
  <<"E9", 32, <<1>>, <<<<1,2>>, <<1,2>>, <<1,2>>>>>>,
  <<"B9", 12, <<2>>, <<<<1,1>>, <<1,1>>, <<2,2>>>>>>,
  <<"E10", 48, <<1>>, <<<<1,1>>, <<1,2>>, <<2,2>>>>>>,
  <<"G2", 96, <<2>>, <<<<1,2>>, <<1,3>>, <<1,3>>>>>>,
  <<"F3", 48, <<3>>, <<<<1,1>>, <<1,3>>, <<2,2>>>>>>,
  <<"F4", 48, <<1>>, <<<<1,3>>, <<1,3>>, <<2,2>>>>>>,
  <<"G3", 96, <<2>>, <<<<1,1>>, <<1,3>>, <<2,3>>>>>>,
  <<"H1", 96, <<1>>, <<<<1,2>>, <<1,3>>, <<2,3>>>>>>,
  <<"F5", 24, <<1>>, <<<<1,1>>, <<2,3>>, <<2,3>>>>>>,
  <<"C2", 12, <<1>>, <<<<1,1>>, <<2,2>>, <<3,3>>>>>>,
  <<"A5", 1, << >>, <<<<1,1>>, <<1,1>>, <<1,1>>, <<1,1>>>>>>,
  <<"E11", 24, << >>, <<<<1,1>>, <<1,1>>, <<1,2>>, <<1,2>>>>>>,
  <<"B10", 4, << >>, <<<<1,1>>, <<1,1>>, <<1,1>>, <<2,2>>>>>>,
  <<"E12", 32, << >>, <<<<1,1>>, <<1,2>>, <<1,2>>, <<1,2>>>>>>,
  <<"E13", 24, << >>, <<<<1,1>>, <<1,1>>, <<1,2>>, <<2,2>>>>>>,
  <<"E14", 8, << >>, <<<<1,2>>, <<1,2>>, <<1,2>>, <<1,2>>>>>>,
  <<"E15", 24, << >>, <<<<1,1>>, <<1,2>>, <<1,2>>, <<2,2>>>>>>,
  <<"B11", 3, << >>, <<<<1,1>>, <<1,1>>, <<2,2>>, <<2,2>>>>>>,
  <<"G4", 48, << >>, <<<<1,2>>, <<1,2>>, <<1,3>>, <<1,3>>>>>>,
  <<"F5a", 48, << >>, <<<<1,1>>, <<1,3>>, <<1,3>>, <<2,2>>>>>>,
  <<"H2", 96, << >>, <<<<1,1>>, <<1,2>>, <<1,3>>, <<2,3>>>>>>,
  <<"F6", 12, << >>, <<<<1,1>>, <<1,1>>, <<2,3>>, <<2,3>>>>>>,
  <<"C3", 6, << >>, <<<<1,1>>, <<1,1>>, <<2,2>>, <<3,3>>>>>>,
  <<"H3", 96, << >>, <<<<1,2>>, <<1,2>>, <<1,3>>, <<2,3>>>>>>,
  <<"G5", 48, << >>, <<<<1,1>>, <<1,3>>, <<2,2>>, <<2,3>>>>>>,
  <<"G6", 96, << >>, <<<<1,1>>, <<1,2>>, <<2,3>>, <<2,3>>>>>>,
  <<"F7", 16, << >>, <<<<1,2>>, <<1,2>>, <<1,2>>, <<3,3>>>>>>,
  <<"F8", 24, << >>, <<<<1,1>>, <<1,2>>, <<2,2>>, <<3,3>>>>>>,
  <<"I1a", 24, << >>, <<<<1,2>>, <<1,4>>, <<2,3>>, <<3,4>>>>>>,
  <<"I1b", 24, << >>, <<<<1,2>>, <<1,3>>, <<2,4>>, <<3,4>>>>>>,
  <<"J1", 32, << >>, <<<<1,1>>, <<2,3>>, <<2,4>>, <<3,4>>>>>>,
  <<"K1", 12, << >>, <<<<1,2>>, <<1,2>>, <<3,4>>, <<3,4>>>>>>,
  <<"L1", 12, << >>, <<<<1,1>>, <<2,2>>, <<3,4>>, <<3,4>>>>>>,
  <<"D1", 1, << >>, <<<<1,1>>, <<2,2>>, <<3,3>>, <<4,4>>>>>> >>
TableC == <<
  <<"A1", 1, <<1>>, << >>, <<1>>, << >>>>,
  <<"A2", 1, << >>, <<<<1,1>>>>, <<1>>, << >>>>,
  <<"A3", 1, <<1>>, << >>, << >>, <<<<1,1>>>>>>,
  <<"A4", 1, << >>, <<<<1,1>>>>, << >>, <<<<1,1>>>>>>,
  <<"B1", 2, << >>, <<<<1,2>>>>, << >>, <<<<1,2>>>>>>,
  <<"C1", 1, << >>, <<<<1,1>>>>, << >>, <<<<2,2>>>>>> >>
-----------------------------------------------------------------------------
(* standardized moments 3..8 of the variables: exponential, reflected      *)
(* Poisson(1), Poisson(1/4), Poisson(1), normal                            *)
Std == << <<2, 9, 44, 265, 1854, 14833>>, <<-1, 4, -11, 41, -162, 715>>,
          <<2, 7, 28, 131, 690, 4033>>, <<1, 4, 11, 41, 162, 715>>, <<0, 3, 0, 15, 0, 105>> >>
M == TLCEval([i \in 1..N |-> <<1>> \o Std[i]])
NP == NTri(N)
\* terms: 1..N the gradients, N+1..N+NP the half Hessian in the order of Second
ValG == << <<2, -3, 1, 5, -2>>, <<1, 2, -4, -1, 3>> >>
ValH == << <<3, -2, 1, 2, 5, -1, 4, -3, 1, 2, -1, 3, 2, -2, 1>>, <<-2, 1, 3, -1, 2, 4, 1, 2, -3, -1, 2, 1, -2, 3, 1>> >>
Pair(t) == PairOf[t - N]
IsSq(t) == t > N /\ Pair(t)[1] = Pair(t)[2]
V(w, S) == [g |-> [i \in 1..N |-> IF i \in S THEN ValG[w][i] ELSE 0],
            h |-> [p \in 1..NP |-> IF N + p \in S THEN ValH[w][p] ELSE 0]]     \* half
Full(v) == [g |-> v.g, h |-> [p \in 1..NP |-> 2 * v.h[p]]]

Injs(k) == TLCEval(SeqOf({f \in [1..k -> 1..N] : \A a, b \in 1..k : a < b => f[a] # f[b] /\ (BUG = "ordered" => f[a] < f[b])}))
Inj == TLCEval([k \in 1..(IF N < 4 THEN N ELSE 4) |-> Injs(k)])
Occ(x, gs, hs) == Cardinality({a \in 1..Len(gs) : gs[a] = x}) + Cardinality({a \in 1..Len(hs) : hs[a][1] = x}) + Cardinality({a \in 1..Len(hs) : hs[a][2] = x})
Top(gs, hs) == CHOOSE k \in 1..4 : Occ(k, gs, hs) > 0 /\ \A x \in (k + 1)..4 : Occ(x, gs, hs) = 0
\* sum of a motif; the two factors (v, w) differ only in a covariance
RECURSIVE ProdG(_, _, _, _), ProdH(_, _, _, _), ProdV(_, _, _)
ProdG(v, gs, f, a) == IF a = 0 THEN 1 ELSE LET x == v.g[f[gs[a]]] IN IF x = 0 THEN 0 ELSE RMul(x, ProdG(v, gs, f, a - 1))
ProdH(v, hs, f, a) == IF a = 0 THEN 1 ELSE LET x == v.h[Tri(f[hs[a][1]], f[hs[a][2]])] IN IF x = 0 THEN 0 ELSE RMul(x, ProdH(v, hs, f, a - 1))
ProdV(oc, f, a) == IF a = 0 THEN 1 ELSE RMul(IF BUG = "gauss" THEN Mu(<<1>> \o Std[5], oc[a]) ELSE Mu(M[f[a]], oc[a]), ProdV(oc, f, a - 1))
MotifSum(c, v, gs, hs, w, gs2, hs2) ==
  LET k == Top(gs \o gs2, hs \o hs2)  oc == TLCEval([x \in 1..k |-> Occ(x, gs \o gs2, hs \o hs2)]) IN
  IF k > N THEN 0 ELSE
  RMul(c, RSum([a \in 1..Len(Inj[k]) |-> LET f == Inj[k][a]
                                            p == RMul(ProdG(v, gs, f, Len(gs)), RMul(ProdH(v, hs, f, Len(hs)), RMul(ProdG(w, gs2, f, Len(gs2)), ProdH(w, hs2, f, Len(hs2))))) IN
                                        IF p = 0 THEN 0 ELSE RMul(p, ProdV(oc, f, k))]))
RowM(r, v) == MotifSum(r[2], v, r[3], r[4], v, << >>, << >>)
RowC(r, v, w) == MotifSum(r[2], v, r[3], r[4], w, r[5], r[6])
Rows(T) == IF BUG = "drop" THEN SubSeq(T, 1, Len(T) - 1) ELSE T
SumM(T, v) == RSum([a \in 1..Len(Rows(T)) |-> RowM(Rows(T)[a], v)])
SumC(v, w) == RSum([a \in 1..Len(Rows(TableC)) |-> RowC(Rows(TableC)[a], v, w)])
Sum1(v) == RSum([i \in 1..N |-> v.h[Tri(i, i)]])
-----------------------------------------------------------------------------
VARIABLES P, R     \* nonzero terms of the two quadratics (R only for covariances)
vars == <<P, R>>
Terms == CASE TERMS = "all" -> 1..(N + NP)
           [] TERMS = "cross" -> {t \in (N + 1)..(N + NP) : ~IsSq(t)}
           [] TERMS = "diag" -> {t \in 1..(N + NP) : t <= N \/ IsSq(t)}
Blocks == {1..N, {t \in (N + 1)..(N + NP) : IsSq(t)}}
Starts == IF START = "none" THEN {{}} ELSE {UNION B : B \in SUBSET Blocks}
Init == P \in Starts /\ R \in (IF WHAT = "cov" THEN Starts ELSE {{}})
\* terms are added in increasing order: every pattern is reached once
Added(S) == S \cap Terms
Add(S) == {t \in Terms : \A u \in Added(S) : u < t}
CanAdd(S) == Cardinality(Added(S)) < MAXT
AddP == Added(R) = {} /\ CanAdd(P) /\ \E t \in Add(P) : P' = P \cup {t} /\ R' = R
AddR == WHAT = "cov" /\ CanAdd(R) /\ \E t \in Add(R) : R' = R \cup {t} /\ P' = P
Next == AddP \/ AddR

MomOK == WHAT = "mom" =>
  LET v == TLCEval(V(1, P))  u == Full(v)  q == TLCEval(Quad(u.g, u.h, N)) IN
  /\ REq(Sum1(v), Raw(q, M, 1))
  /\ REq(SumM(Table2, v), Raw(q, M, 2))
  /\ REq(SumM(Table3, v), Raw(q, M, 3))
  /\ REq(SumM(Table4, v), Raw(q, M, 4))
CovOK == WHAT = "cov" =>
  LET v == TLCEval(V(1, P))  w == TLCEval(V(2, R))  fv == Full(v)  fw == Full(w) IN
  REq(SumC(v, w), EProd(Quad(fv.g, fv.h, N), Quad(fw.g, fw.h, N), M))
\* every motif contributes when all terms are there
Needed == (N = 4 /\ P = 1..(N + NP)) =>
  LET v == TLCEval(V(1, P)) IN
  /\ \A T \in {Table2, Table3, Table4} : \A a \in 1..Len(T) : RowM(T[a], v) # 0
  /\ \A a \in 1..Len(TableC) : RowC(TableC[a], v, v) # 0

RECURSIVE Flat(_, _)
Flat(f, i) == IF i > Len(f) THEN "" ELSE RToStr(f[i]) \o " " \o Flat(f, i + 1)
Show(v) == Flat(v.g, 1) \o Flat(v.h, 1)
Emit == IF ~EMIT THEN TRUE ELSE
  LET v == TLCEval(V(1, P'))  w == TLCEval(V(2, R'))  fv == Full(v)  fw == Full(w) IN
  PrintT(IF WHAT = "mom" THEN "P M " \o ToString(N) \o " " \o Show(v) \o "| " \o Flat(Moments(fv, M), 1) \o Flat(MomentScales(fv, M), 1)
         ELSE "P C " \o ToString(N) \o " " \o Show(v) \o Show(w) \o "| " \o RToStr(Cov2(fv, fw, M)) \o " " \o RToStr(Cov2Scale(fv, fw, M)))
=============================================================================
