------------------------------- MODULE First -------------------------------
(***************************************************************************)
(* First-order error propagation: the abstract meaning of a UReal.         *)
(*                                                                         *)
(* The world has underlying independent ("base") variables 1..m with       *)
(* standard deviations sigma_i.  A variable is abstractly a mean n and one *)
(* linear coefficient per base variable.  The coefficient is represented   *)
(* by C[i] = coefficient_i * sigma_i^2 = covariance with base variable i,  *)
(* which is what the public interface shows; it is linear in the           *)
(* coefficient, so the chain rule acts on C exactly as on the coefficient. *)
(*                                                                         *)
(* Expected results carry a scale next to each number: the sum of absolute *)
(* values of the terms it is made of.  The implementation must be within   *)
(* 2^(-k) * scale of the exact number (k = digits of the type - 9).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat

\* [n, C]: a known value; [n, ns, C, S]: a computed value with its scales
Exact(v) == [n |-> v.n, ns |-> RAbs(v.n), C |-> v.C, S |-> [i \in 1..Len(v.C) |-> RAbs(v.C[i])]]
Const(c, m) == [n |-> c, ns |-> RAbs(c), C |-> [i \in 1..m |-> 0], S |-> [i \in 1..m |-> 0]]

\* chain rule: mean mu (scale mus), derivatives d (scales ds) with respect to
\* the values xs
Chain(mu, mus, d, ds, xs, m) ==
  [n |-> mu, ns |-> mus,
   C |-> [i \in 1..m |-> RSum([j \in 1..Len(xs) |-> RMul(d[j], xs[j].C[i])])],
   S |-> [i \in 1..m |-> RSum([j \in 1..Len(xs) |-> RMul(ds[j], xs[j].S[i])])]]

Abs1(s) == [j \in 1..Len(s) |-> RAbs(s[j])]
ChainE(mu, d, xs, m) == Chain(mu, RAbs(mu), d, Abs1(d), xs, m)

\* the four operations
Arith(f, x, y, m) ==
  CASE f = "add" -> Chain(RAdd(x.n, y.n), RAdd(x.ns, y.ns), <<1, 1>>, <<1, 1>>, <<x, y>>, m)
    [] f = "sub" -> Chain(RSub(x.n, y.n), RAdd(x.ns, y.ns), <<1, -1>>, <<1, 1>>, <<x, y>>, m)
    [] f = "mul" -> Chain(RMul(x.n, y.n), RMul(x.ns, y.ns), <<y.n, x.n>>, <<y.ns, x.ns>>, <<x, y>>, m)
    [] f = "div" -> LET q == RDiv(x.n, y.n)  i == RDiv(1, y.n)
                        qs == RDiv(x.ns, RAbs(y.n)) is == RAbs(i) IN
                    Chain(q, qs, <<i, RNeg(RMul(q, i))>>, <<is, RMul(qs, is)>>, <<x, y>>, m)

\* covariance of two variables, bases with standard deviations sg (a base with
\* sigma = 0 carries no uncertainty and contributes nothing)
CovTerms(x, y, sg) == [i \in 1..Len(x.C) |-> IF REq(sg[i], 0) THEN 0
                         ELSE RDiv(RMul(x.C[i], y.C[i]), RMul(sg[i], sg[i]))]
Cov(x, y, sg) == RSum(CovTerms(x, y, sg))
CovScale(x, y, sg) == RNorm1(CovTerms(x, y, sg))
Var(x, sg) == Cov(x, x, sg)

\* base variables the value depends on with a nonzero coefficient
Dep(x) == {i \in 1..Len(x.C) : ~REq(x.C[i], 0)}

\* identity: what isindep()/indepid() may report for a variable computed from
\* the base variables `sup`, with coefficients as in x.  `ids[i]` is the id of
\* base i.  (When a dependence has cancelled exactly, or a base variable has
\* zero uncertainty, the statement does not pin the answer down.)
IdentityOK(x, sup, ids, sg, ind, id) ==
  IF \E i \in sup : REq(sg[i], 0) THEN TRUE
  ELSE CASE sup = {} -> ind /\ id = 0
         [] Cardinality(sup) = 1 ->
              LET b == CHOOSE i \in sup : TRUE IN
              ind /\ id = ids[b]
         [] OTHER -> Cardinality(Dep(x)) >= 2 => (~ind /\ id = -1)

\* gradient of y with respect to x
GradMustThrow(x, sup) == sup = {} \/ Cardinality(Dep(x)) >= 2
GradDefined(x, sup) == Cardinality(sup) = 1 /\ Dep(x) = sup
Grad(y, x, sup) == LET b == CHOOSE i \in sup : TRUE IN RDiv(y.C[b], x.C[b])
=============================================================================
