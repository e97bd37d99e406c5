------------------------------- MODULE UReal2 -------------------------------
(***************************************************************************)
(* The class UReal2 as it is built: a map of gradients and diagonal second *)
(* derivatives (keys D), and a sparse map of mixed second derivatives      *)
(* (keys T); one action per public operation, aliases included.  rd says   *)
(* that moments were read since the last assignment (the class computes    *)
(* them on demand, with no memory; a design that remembers is wrong when   *)
(* it forgets to forget).                                                  *)
(*                                                                         *)
(* Next to the implementation state `r`, the abstract state `a` (dense     *)
(* quadratic, base variables involved) evolves by the second-order chain   *)
(* rule.  Invariants: the implementation refines the abstraction; moments  *)
(* and covariances of the sparse form are those of the quadratic;          *)
(* identity.  Numbers are small integers; H holds full second derivatives. *)
(*                                                                         *)
(* Every transition is printed as a program with the expected observables, *)
(* which harness/h2s.cpp runs on the real classes.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NR, NB, PRE, DEPTH, MAXN, MAXC, EMIT, BUG
VARIABLES r, a, nb, rd, hist
vars == <<r, a, nb, rd, hist>>
view == <<r, a, nb, rd>>
Reg == 1..NR
Base == 1..NB
Pairs == {p \in Base \X Base : p[1] <= p[2]}
Off(D) == {p \in D \X D : p[1] < p[2]}
BaseN == <<2, -3, 1>>
\* central moments 2, 3, 4 of the base variables: 2 * exponential, reflected Poisson(1), normal with s = 3
BaseS == <<2, 1, 3>>
M2 == <<4, 1, 9>>
M3 == <<16, -1, 0>>
M4 == <<144, 4, 243>>
St == << <<2, 9, 44, 265, 1854, 14833>>, <<-1, 4, -11, 41, -162, 715>>, <<0, 3, 0, 15, 0, 105>> >>

Zero == [D |-> {}, T |-> {}, g |-> << >>, h |-> << >>, n |-> 0]
AZero == [n |-> 0, g |-> [i \in Base |-> 0], h |-> [p \in Pairs |-> 0], sup |-> {}]
NewI(i) == [D |-> {i}, T |-> {}, g |-> (i :> 1), h |-> (<<i, i>> :> 0), n |-> BaseN[i]]
NewA(i) == [AZero EXCEPT !.n = BaseN[i], !.g[i] = 1, !.sup = {i}]
T(x) == ToString(x - 1)
I(x) == ToString(x)
RECURSIVE StS(_, _)
StS(s, k) == IF k > 6 THEN << >> ELSE <<I(s[k])>> \o StS(s, k + 1)
NewH(t, i) == <<"new", T(t), I(BaseN[i]), I(BaseS[i])>> \o StS(St[i], 1)
RECURSIVE PreH(_)
PreH(i) == IF i = 0 THEN << >> ELSE PreH(i - 1) \o NewH(i, i)
Init == /\ r = [x \in Reg |-> IF x <= PRE THEN NewI(x) ELSE Zero]
        /\ a = [x \in Reg |-> IF x <= PRE THEN NewA(x) ELSE AZero]
        /\ nb = PRE /\ rd = {} /\ hist = PreH(PRE)

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
\* pairs that an iterator over x visits
Visits(x, skip) == {<<i, i>> : i \in x.D} \cup (IF skip \/ BUG = "skip" THEN x.T ELSE Off(x.D))
Mk(n, D, V, g, h) ==
  [D |-> D, T |-> {p \in V : p[1] # p[2]}, n |-> n, g |-> [i \in D |-> g[i]], h |-> [p \in V |-> h[p]]]
-----------------------------------------------------------------------------
\* implementation
Unary(x, n, d, dd) ==
  LET V == Visits(x, dd = 0) IN
  Mk(n, x.D, V, [i \in x.D |-> d * x.g[i]], [p \in V |-> dd * x.g[p[1]] * x.g[p[2]] + d * Get(x.h, p)])
Binary(x, y, n, dx, dy, dxx, dyy, dxy) ==
  LET D == x.D \cup y.D
      V0 == Visits(x, dxx = 0) \cup Visits(y, dyy = 0)
      C == IF dxy = 0 THEN {} ELSE {p \in Pairs : (p[1] \in x.D /\ p[2] \in y.D) \/ (p[2] \in x.D /\ p[1] \in y.D)}
      V == V0 \cup (IF BUG = "stored" THEN {} ELSE C) IN
  Mk(n, D, V, [i \in D |-> dx * Get(x.g, i) + dy * Get(y.g, i)],
     [p \in V |-> LET i == p[1] j == p[2] IN
        (IF p \in Visits(x, dxx = 0) THEN dxx * x.g[i] * x.g[j] + dx * Get(x.h, p) ELSE 0)
        + (IF p \in Visits(y, dyy = 0) THEN dyy * y.g[i] * y.g[j] + dy * Get(y.h, p) ELSE 0)
        + (IF i = j THEN 2 * dxy * Get(x.g, i) * Get(y.g, i) ELSE dxy * (Get(x.g, i) * Get(y.g, j) + Get(x.g, j) * Get(y.g, i)))])
\* an assignment to x while y is read; BUG "alias": gradients of x are overwritten first
BinaryAssign(x, y, self, n, dx, dy, dxx, dyy, dxy) ==
  IF BUG = "alias" /\ self
  THEN LET x1 == [x EXCEPT !.g = [i \in x.D |-> dx * x.g[i] + dy * x.g[i]]]
           z == Binary(x1, x1, n, dx, dy, dxx, dyy, dxy) IN [z EXCEPT !.g = x1.g]
  ELSE Binary(x, y, n, dx, dy, dxx, dyy, dxy)
\* observables of the implementation: 2 m(1), 4 m(2), 4 cov, from the stored entries only
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + Sum(f, S \ {i})
M1I(x) == Sum([i \in x.D |-> x.h[<<i, i>>] * M2[i]], x.D)
CovI(x, y) ==
  LET B == x.D \cap y.D  U == x.T \cap y.T IN
  Sum([i \in B |-> 4 * x.g[i] * y.g[i] * M2[i] + 2 * x.g[i] * y.h[<<i, i>>] * M3[i] + 2 * x.h[<<i, i>>] * y.g[i] * M3[i] + x.h[<<i, i>>] * y.h[<<i, i>>] * M4[i]], B)
  + Sum([p \in U |-> 4 * x.h[p] * y.h[p] * M2[p[1]] * M2[p[2]]], U)
  + Sum([p \in x.D \X y.D |-> IF p[1] = p[2] THEN 0 ELSE x.h[<<p[1], p[1]>>] * y.h[<<p[2], p[2]>>] * M2[p[1]] * M2[p[2]]], x.D \X y.D)
  - M1I(x) * M1I(y)
-----------------------------------------------------------------------------
\* abstraction: truncated composition of polynomials
Ap(n, dx, dy, dxx, dyy, dxy, x, y) ==
  [n |-> n, sup |-> x.sup \cup y.sup, g |-> [i \in Base |-> dx * x.g[i] + dy * y.g[i]],
   h |-> [p \in Pairs |-> LET i == p[1] j == p[2] IN
     dx * x.h[p] + dy * y.h[p] + dxx * x.g[i] * x.g[j] + dyy * y.g[i] * y.g[j] + dxy * (x.g[i] * y.g[j] + x.g[j] * y.g[i])]]
Ap1(n, d, dd, x) == Ap(n, d, 0, dd, 0, 0, x, AZero)
H(v, i, j) == IF i <= j THEN v.h[<<i, j>>] ELSE v.h[<<j, i>>]
\* 4 E[(q_x)(q_y)] over ordered quadruples of indices
Bas2 == Base \X Base
E4(i, j, k, l) ==     \* E[d_i d_j d_k d_l]
  IF i = j /\ j = k /\ k = l THEN M4[i]
  ELSE IF i = j /\ k = l THEN M2[i] * M2[k] ELSE IF i = k /\ j = l THEN M2[i] * M2[j] ELSE IF i = l /\ j = k THEN M2[i] * M2[j] ELSE 0
M1A(v) == Sum([i \in Base |-> v.h[<<i, i>>] * M2[i]], Base)
CovA(v, w) ==
  Sum([i \in Base |-> 4 * v.g[i] * w.g[i] * M2[i] + 2 * M3[i] * (v.g[i] * w.h[<<i, i>>] + v.h[<<i, i>>] * w.g[i])], Base)
  + Sum([q \in Bas2 \X Bas2 |-> H(v, q[1][1], q[1][2]) * H(w, q[2][1], q[2][2]) * E4(q[1][1], q[1][2], q[2][1], q[2][2])], Bas2 \X Bas2)
  - M1A(v) * M1A(w)

Small(x) == x.n \in -MAXN..MAXN /\ (\A i \in Base : x.g[i] \in -MAXC..MAXC) /\ \A p \in Pairs : x.h[p] \in -MAXC..MAXC
Put(t, x, ax, h) == /\ Small(ax)
                    /\ r' = [r EXCEPT ![t] = x] /\ a' = [a EXCEPT ![t] = ax]
                    /\ rd' = rd \ {t} /\ hist' = hist \o h /\ UNCHANGED nb
Args(s) == [k \in 1..Len(s) |-> I(s[k])]
New(t) == /\ nb < NB /\ nb' = nb + 1
          /\ r' = [r EXCEPT ![t] = NewI(nb + 1)] /\ a' = [a EXCEPT ![t] = NewA(nb + 1)]
          /\ rd' = rd \ {t} /\ hist' = hist \o NewH(t, nb + 1)
ConstA(t) == Put(t, [Zero EXCEPT !.n = 3], [AZero EXCEPT !.n = 3], <<"const", T(t), "3">>)
Copy(t, x) == /\ t # x
              /\ r' = [r EXCEPT ![t] = r[x]] /\ a' = [a EXCEPT ![t] = a[x]]
              /\ rd' = IF x \in rd THEN rd \cup {t} ELSE rd \ {t}
              /\ hist' = hist \o <<"copy", T(t), T(x)>> /\ UNCHANGED nb
Read(t) == t \notin rd /\ r[t].D # {} /\ rd' = rd \cup {t} /\ hist' = hist \o <<"read", T(t)>> /\ UNCHANGED <<r, a, nb>>
Un(t, x, d, dd) == LET n == r[x].n + dd IN Put(t, Unary(r[x], n, d, dd), Ap1(n, d, dd, a[x]), <<"un", T(t), T(x)>> \o Args(<<n, d, dd>>))
Neg(t, x) == Put(t, Unary(r[x], -r[x].n, -1, 0), Ap1(-a[x].n, -1, 0, a[x]), <<"neg", T(t), T(x)>>)
Op2(t, x, y, name, n, k) ==
  Put(t, Binary(r[x], r[y], n, k[1], k[2], k[3], k[4], k[5]), Ap(n, k[1], k[2], k[3], k[4], k[5], a[x], a[y]), <<name, T(t), T(x), T(y)>>)
Add(t, x, y) == Op2(t, x, y, "add", r[x].n + r[y].n, <<1, 1, 0, 0, 0>>)
Sub(t, x, y) == Op2(t, x, y, "sub", r[x].n - r[y].n, <<1, -1, 0, 0, 0>>)
Mul(t, x, y) == Op2(t, x, y, "mul", r[x].n * r[y].n, <<r[y].n, r[x].n, 0, 0, 1>>)
Bi(t, x, y, k) == Put(t, Binary(r[x], r[y], 5, k[1], k[2], k[3], k[4], k[5]), Ap(5, k[1], k[2], k[3], k[4], k[5], a[x], a[y]),
                      <<"bi", T(t), T(x), T(y), "5">> \o Args(k))
Bas(t, y, k) == Put(t, BinaryAssign(r[t], r[y], t = y, -1, k[1], k[2], k[3], k[4], k[5]), Ap(-1, k[1], k[2], k[3], k[4], k[5], a[t], a[y]),
                    <<"bas", T(t), T(y), "-1">> \o Args(k))
Next ==
  /\ TLCGet("level") <= DEPTH
  /\ \/ \E t \in Reg : New(t) \/ ConstA(t) \/ Read(t)
     \/ \E t, x \in Reg : \/ Copy(t, x) \/ Neg(t, x) \/ Un(t, x, 1, 2) \/ Un(t, x, 0, -1) \/ Un(t, x, 2, 0)
                          \/ Bas(t, x, <<1, 2, 0, 1, 0>>) \/ Bas(t, x, <<-1, 1, 1, 0, 1>>) \/ Bas(t, x, <<1, -1, 0, 0, 0>>) \/ Bas(t, x, <<2, 1, 0, 0, 1>>)
     \/ \E t, x, y \in Reg : Add(t, x, y) \/ Sub(t, x, y) \/ Mul(t, x, y) \/ Bi(t, x, y, <<0, 1, 0, 0, 1>>) \/ Bi(t, x, y, <<1, 1, 1, -1, 0>>)
-----------------------------------------------------------------------------
Refines == \A x \in Reg :
  /\ r[x].n = a[x].n /\ r[x].D = a[x].sup
  /\ \A i \in Base : Get(r[x].g, i) = a[x].g[i]
  /\ \A p \in Pairs : Get(r[x].h, p) = a[x].h[p]
Form == \A x \in Reg : DOMAIN r[x].h = {<<i, i>> : i \in r[x].D} \cup r[x].T /\ r[x].T \subseteq Off(r[x].D)
Moms == \A x, y \in Reg : M1I(r[x]) = M1A(a[x]) /\ CovI(r[x], r[y]) = CovA(a[x], a[y]) /\ (x = y => CovI(r[x], r[y]) >= 0)

Dep(v) == {i \in Base : v.g[i] # 0 \/ \E p \in Pairs : i \in {p[1], p[2]} /\ v.h[p] # 0}
XId(v) == IF v.sup = {} THEN 0 ELSE IF Cardinality(v.sup) = 1 THEN CHOOSE i \in v.sup : TRUE ELSE IF Cardinality(Dep(v)) >= 2 THEN -1 ELSE -2
XInd(v) == IF Cardinality(v.sup) <= 1 THEN 1 ELSE IF Cardinality(Dep(v)) >= 2 THEN 0 ELSE 2
RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE s[1] \o " " \o Join(Tail(s))
RECURSIVE HSeq(_, _, _)
HSeq(v, i, j) == IF i > NB THEN << >> ELSE IF j > NB THEN HSeq(v, i + 1, i + 1) ELSE <<I(v.h[<<i, j>>])>> \o HSeq(v, i, j + 1)
Obs(v) == <<I(v.n)>> \o [i \in Base |-> I(v.g[i])] \o HSeq(v, 1, 1) \o <<I(XInd(v)), I(XId(v)), I(M1A(v))>>
RECURSIVE AllObs(_, _)
AllObs(x, aa) == IF x > NR THEN << >> ELSE Obs(aa[x]) \o AllObs(x + 1, aa)
Covs(aa) == [k \in 1..(NR * NR) |-> I(CovA(aa[((k - 1) \div NR) + 1], aa[((k - 1) % NR) + 1]))]
Emit == EMIT => PrintT("P S " \o I(NR) \o " " \o I(NB) \o " " \o Join(hist') \o "| " \o Join(AllObs(1, a')) \o Join(Covs(a')))
=============================================================================
