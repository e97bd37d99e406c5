------------------------------- MODULE UReal -------------------------------
(***************************************************************************)
(* The class UReal as it is built: the variables id, sdev, mu, sigma, with *)
(* the independent-variable optimisation and the lazily filled cache of    *)
(* the standard deviation, one action per public operation, the branches   *)
(* of the code as branches of the action.                                  *)
(*                                                                         *)
(* Next to the implementation state `r` the abstract state `a` (module     *)
(* First's meaning: mean, coefficient*sigma per base variable, base        *)
(* variables involved) evolves by the chain rule alone.  The invariants    *)
(* state that the implementation refines the abstraction: C01-C05 and C07  *)
(* on the design.  All numbers are small integers.                         *)
(*                                                                         *)
(* The cache holds a standard deviation; as the model has integers only,   *)
(* field q is the signed square: q < 0 not cached, q >= 0 cached variance. *)
(* For id > 0 field q is the signed coefficient itself.                    *)
(*                                                                         *)
(* Every transition is printed as a program with the expected observables  *)
(* (EMIT = TRUE), which harness/h1 runs on the real class.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NR,        \* registers
          NB,        \* base variables
          MAXC,      \* bound on coefficients
          MAXN,      \* bound on means
          DEPTH,     \* operations
          PRE,       \* number of base variables created beforehand in registers 1, 2, ..
          EMIT,      \* print programs
          BUG        \* "" or the name of a deliberately wrong design

VARIABLES r, a, nb, hist
vars == <<r, a, nb, hist>>
view == <<r, a, nb>>

Reg == 1..NR
Base == 1..NB
BaseN == <<2, -3, 1>>      \* means and standard deviations of the base variables
BaseS == <<1, 2, 3>>

Inv == -1                  \* invalid_id
Zero == [id |-> 0, q |-> 0, mu |-> 0, sig |-> << >>]   \* sig: function from ids
AZero == [n |-> 0, c |-> [i \in Base |-> 0], sup |-> {}]

NewI(i) == [id |-> i, q |-> BaseS[i], mu |-> BaseN[i], sig |-> << >>]
NewA(i) == [n |-> BaseN[i], c |-> [j \in Base |-> IF j = i THEN BaseS[i] ELSE 0], sup |-> {i}]
NewH(t, i) == <<"new", ToString(t - 1), ToString(BaseN[i]), ToString(BaseS[i])>>
RECURSIVE PreH(_)
PreH(i) == IF i = 0 THEN << >> ELSE PreH(i - 1) \o NewH(i, i)
Init == /\ r = [x \in Reg |-> IF x <= PRE THEN NewI(x) ELSE Zero]
        /\ a = [x \in Reg |-> IF x <= PRE THEN NewA(x) ELSE AZero]
        /\ nb = PRE
        /\ hist = PreH(PRE)

Sq(x) == x * x
RECURSIVE SumSq(_, _)
SumSq(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Sq(f[i]) + SumSq(f, S \ {i})
S2(x) == SumSq(x.sig, DOMAIN x.sig)
Get(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0
\* the map of coefficients of a variable, whatever its representation
Map(x) == IF x.id > 0 THEN (x.id :> x.q) ELSE IF x.id < 0 THEN x.sig ELSE << >>

-----------------------------------------------------------------------------
\* implementation: unary, binary, binary_assign, reads
Unary(x, mu, d) ==
  IF x.id > 0 THEN [id |-> x.id, q |-> x.q * d, mu |-> mu, sig |-> << >>]
  ELSE IF x.id < 0 THEN [id |-> Inv, q |-> -1, mu |-> mu, sig |-> [i \in DOMAIN x.sig |-> x.sig[i] * d]]
  ELSE [Zero EXCEPT !.mu = mu]

Binary(x, y, mu, dx, dy) ==
  [id |-> Inv, q |-> -1, mu |-> mu,
   sig |-> [i \in (DOMAIN Map(x) \cup DOMAIN Map(y)) |-> dx * Get(Map(x), i) + dy * Get(Map(y), i)]]

BinaryAssign(x, y, self, mu, dt, dx) ==
  IF self THEN
    LET d == dt + dx IN
    [id |-> x.id,
     q |-> IF x.id > 0 THEN x.q * d
           ELSE IF x.q > 0 THEN (IF BUG = "selfcache" THEN x.q ELSE IF d >= 0 THEN x.q * d * d ELSE -1)
           ELSE x.q,
     mu |-> mu, sig |-> [i \in DOMAIN x.sig |-> x.sig[i] * d]]
  ELSE
    LET s0 == Map(x)
        s1 == [i \in DOMAIN s0 |-> s0[i] * dt]
        sy == Map(y) IN
    [id |-> Inv, q |-> IF BUG = "stalecache" /\ x.id < 0 THEN x.q ELSE -1, mu |-> mu,
     sig |-> [i \in (DOMAIN s1 \cup DOMAIN sy) |-> Get(s1, i) + dx * Get(sy, i)]]

\* non-const s()/var(): fill the cache of a dependent variable
Fill(x) == IF x.id >= 0 \/ x.q >= 0 THEN x ELSE [x EXCEPT !.q = S2(x)]

\* observables of the implementation
VarOf(x) == IF x.id >= 0 THEN Sq(x.q) ELSE IF x.q >= 0 THEN x.q ELSE S2(x)
IsIndep(x) == Cardinality(DOMAIN x.sig) <= 1
IndepId(x) == IF x.id >= 0 THEN x.id
              ELSE IF DOMAIN x.sig = {} THEN 0
              ELSE IF Cardinality(DOMAIN x.sig) = 1 THEN CHOOSE i \in DOMAIN x.sig : TRUE
              ELSE Inv
CovOf(x, y) ==   \* the four branches of cov
  IF x.id > 0 /\ y.id > 0 THEN (IF x.id = y.id THEN x.q * y.q ELSE 0)
  ELSE IF x.id < 0 /\ y.id > 0 THEN Get(x.sig, y.id) * y.q
  ELSE IF x.id > 0 /\ y.id < 0 THEN x.q * Get(y.sig, x.id)
  ELSE IF x.id < 0 /\ y.id < 0 THEN
    LET RECURSIVE Sum(_)
        Sum(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN x.sig[i] * y.sig[i] + Sum(S \ {i})
    IN Sum(DOMAIN x.sig \cap DOMAIN y.sig)
  ELSE 0
-----------------------------------------------------------------------------
\* abstraction: the chain rule
Lin(mu, d1, x, d2, y) == [n |-> mu, c |-> [i \in Base |-> d1 * x.c[i] + d2 * y.c[i]], sup |-> x.sup \cup y.sup]
Lin1(mu, d, x) == [n |-> mu, c |-> [i \in Base |-> d * x.c[i]], sup |-> x.sup]

\* small enough numbers
Small(x) == x.n \in -MAXN..MAXN /\ \A i \in Base : x.c[i] \in -MAXC..MAXC

Put(t, x, ax, h) == /\ Small(ax)
                    /\ r' = [r EXCEPT ![t] = x]
                    /\ a' = [a EXCEPT ![t] = ax]
                    /\ hist' = hist \o h
                    /\ UNCHANGED nb
T(x) == ToString(x - 1)     \* registers are numbered from 0 in programs
I(x) == ToString(x)

New(t) == /\ nb < NB
          /\ nb' = nb + 1
          /\ r' = [r EXCEPT ![t] = NewI(nb + 1)]
          /\ a' = [a EXCEPT ![t] = NewA(nb + 1)]
          /\ hist' = hist \o NewH(t, nb + 1)
ConstA(t) == Put(t, [Zero EXCEPT !.mu = 3], [AZero EXCEPT !.n = 3], <<"const", T(t), "3">>)
Copy(t, x) == t # x /\ Put(t, r[x], a[x], <<"copy", T(t), T(x)>>)
Neg(t, x) == Put(t, Unary(r[x], -r[x].mu, -1), Lin1(-a[x].n, -1, a[x]), <<"neg", T(t), T(x)>>)
Un(t, x, d) == Put(t, Unary(r[x], d * r[x].mu, d), Lin1(d * a[x].n, d, a[x]), <<"un", T(t), T(x), I(d)>>)
Add(t, x, y) == Put(t, Binary(r[x], r[y], r[x].mu + r[y].mu, 1, 1), Lin(a[x].n + a[y].n, 1, a[x], 1, a[y]), <<"add", T(t), T(x), T(y)>>)
Sub(t, x, y) == Put(t, Binary(r[x], r[y], r[x].mu - r[y].mu, 1, -1), Lin(a[x].n - a[y].n, 1, a[x], -1, a[y]), <<"sub", T(t), T(x), T(y)>>)
Mul(t, x, y) == Put(t, Binary(r[x], r[y], r[x].mu * r[y].mu, r[y].mu, r[x].mu), Lin(a[x].n * a[y].n, a[y].n, a[x], a[x].n, a[y]), <<"mul", T(t), T(x), T(y)>>)
IAdd(t, y) == Put(t, BinaryAssign(r[t], r[y], t = y, r[t].mu + r[y].mu, 1, 1), Lin(a[t].n + a[y].n, 1, a[t], 1, a[y]), <<"iadd", T(t), T(y)>>)
ISub(t, y) == Put(t, BinaryAssign(r[t], r[y], t = y, r[t].mu - r[y].mu, 1, -1), Lin(a[t].n - a[y].n, 1, a[t], -1, a[y]), <<"isub", T(t), T(y)>>)
IMul(t, y) == Put(t, BinaryAssign(r[t], r[y], t = y, r[t].mu * r[y].mu, r[y].mu, r[t].mu), Lin(a[t].n * a[y].n, a[y].n, a[t], a[t].n, a[y]), <<"imul", T(t), T(y)>>)
BAssign(t, y, c, d) == Put(t, BinaryAssign(r[t], r[y], t = y, c * r[t].mu + d * r[y].mu, c, d), Lin(c * a[t].n + d * a[y].n, c, a[t], d, a[y]), <<"bas", T(t), T(y), I(c), I(d)>>)
ChNom(t, x) == Put(t, [r[x] EXCEPT !.mu = 1], [a[x] EXCEPT !.n = 1], <<"chnom", T(t), T(x), "1">>)
ReadS(t) == /\ Fill(r[t]) # r[t]
            /\ Put(t, Fill(r[t]), a[t], <<"rs", T(t)>>)
ReadV(t) == /\ r[t].id < 0 /\ r[t].q < 0
            /\ Put(t, Fill(r[t]), a[t], <<"rv", T(t)>>)

Next ==
  /\ TLCGet("level") <= DEPTH
  /\ \/ \E t \in Reg : New(t) \/ ConstA(t) \/ ReadS(t) \/ ReadV(t)
     \/ \E t, x \in Reg : \/ Copy(t, x) \/ Neg(t, x) \/ ChNom(t, x) \/ Un(t, x, 2) \/ Un(t, x, 0)
                          \/ IAdd(t, x) \/ ISub(t, x) \/ IMul(t, x)
                          \/ BAssign(t, x, 0, 1) \/ BAssign(t, x, 2, -1) \/ BAssign(t, x, -1, -1) \/ BAssign(t, x, 1, 0)
     \/ \E t, x, y \in Reg : Add(t, x, y) \/ Sub(t, x, y) \/ Mul(t, x, y)
-----------------------------------------------------------------------------
\* refinement and the listed properties on the design
Refines == \A x \in Reg :
  /\ r[x].mu = a[x].n
  /\ \A i \in Base : Get(Map(r[x]), i) = a[x].c[i]
  /\ DOMAIN Map(r[x]) \subseteq a[x].sup
RECURSIVE ADot(_, _, _)
ADot(c, d, i) == IF i = 0 THEN 0 ELSE c[i] * d[i] + ADot(c, d, i - 1)
Spread == \A x \in Reg : VarOf(r[x]) = ADot(a[x].c, a[x].c, NB) /\ VarOf(r[x]) >= 0
Covs == \A x, y \in Reg : CovOf(r[x], r[y]) = ADot(a[x].c, a[y].c, NB) /\ CovOf(r[x], r[y]) = CovOf(r[y], r[x])
DepA(x) == {i \in Base : a[x].c[i] # 0}
Identity == \A x \in Reg :
  CASE a[x].sup = {} -> IsIndep(r[x]) /\ IndepId(r[x]) = 0
    [] Cardinality(a[x].sup) = 1 -> IsIndep(r[x]) /\ IndepId(r[x]) \in a[x].sup
    [] OTHER -> Cardinality(DepA(x)) >= 2 => (~IsIndep(r[x]) /\ IndepId(r[x]) = Inv)
\* invariants written in the code
ClassInv == \A x \in Reg :
  /\ r[x].id = 0 => r[x].q = 0 /\ r[x].sig = << >>
  /\ r[x].id > 0 => r[x].sig = << >>
  /\ (r[x].id < 0 /\ r[x].q >= 0) => r[x].q = S2(r[x])

\* identity expected by the programs: 0 constant, base index, -1 several, -2 not pinned down
DepV(v) == {i \in Base : v.c[i] # 0}
XId(v) == IF v.sup = {} THEN 0
          ELSE IF Cardinality(v.sup) = 1 THEN (IF DepV(v) = {} THEN -2 ELSE CHOOSE i \in v.sup : TRUE)
          ELSE IF Cardinality(DepV(v)) >= 2 THEN -1 ELSE -2
XInd(v) == IF Cardinality(v.sup) <= 1 THEN 1 ELSE IF Cardinality(DepV(v)) >= 2 THEN 0 ELSE 2
RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE s[1] \o " " \o Join(Tail(s))
Observe(x, v, n) ==
  <<T(x), I(v.n), I(n)>> \o [i \in 1..n |-> I(v.c[i] * BaseS[i])]
    \o <<I(ADot(v.c, v.c, NB)), I(XInd(v)), I(XId(v))>>
RECURSIVE AllObs(_, _, _)
AllObs(x, aa, n) == IF x > NR THEN << >> ELSE Observe(x, aa[x], n) \o AllObs(x + 1, aa, n)
EmitP(h, aa, n) == PrintT("P " \o Join(h) \o "| " \o Join(AllObs(1, aa, n)))
Emit == EMIT => EmitP(hist', a', nb')
=============================================================================
