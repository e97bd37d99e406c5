----------------------------- MODULE SparseHess -----------------------------
(***************************************************************************)
(* The sparse second-order merge of UReal2 (ureal2.hpp `binary`,           *)
(* hessgrad.hpp `ConstHessIt`), step by step, refines the dense second-    *)
(* order chain rule.                                                       *)
(*                                                                         *)
(* An operand is a set D of variables with a gradient each and a set T of  *)
(* pairs of D with a stored mixed half-derivative; a missing pair means 0. *)
(* Two iterators walk over the pairs of the operands in lexicographic      *)
(* order; when the second derivative with respect to an operand is zero    *)
(* its iterator skips the missing pairs.  The merge takes the smaller pair *)
(* (or both), until both iterators are at the end; then the mixed          *)
(* derivative adds its cross products.                                     *)
(*                                                                         *)
(* BUG = "" is the design; "skipalways" (missing pairs never visited: the  *)
(* defect repaired in /repo), "nocross" (cross products only on one side), *)
(* "diagtwice" are wrong designs that TLC must reject.                     *)
(*                                                                         *)
(* Every terminal state prints a program (operands, derivatives, expected  *)
(* gradient and Hessian) that harness/h2s.cpp runs on the real class.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,        \* number of variables
          FULL,     \* TRUE: every zero pattern of the gradients
          EMIT, BUG

Ids == 1..N
Prs(D) == {p \in D \X D : p[1] < p[2]}
Pairs == {p \in Ids \X Ids : p[1] <= p[2]}
END == <<N + 1, N + 1>>
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Min(S) == CHOOSE p \in S : \A q \in S : p = q \/ Less(p, q)

\* values, all different
GX == <<2, 3, 5, 7>>
GY == <<11, -13, 17, 19>>
HX == [p \in Pairs |-> 1 + 3 * p[1] + 10 * p[2]]
HY == [p \in Pairs |-> 2 - 5 * p[1] + 20 * p[2]]

Operand(D, T, Z, G, H) ==      \* Z: variables with zero gradient
  [D |-> D, T |-> T, G |-> [i \in Ids |-> IF i \in D \ Z THEN G[i] ELSE 0],
   H |-> [p \in Pairs |-> IF (p[1] = p[2] /\ p[1] \in D) \/ p \in T THEN H[p] ELSE 0]]
Operands(G, H, zs) ==
  UNION {UNION {{Operand(D, T, Z, G, H) : Z \in {z \in zs : z \subseteq D}} : T \in SUBSET Prs(D)} : D \in SUBSET Ids}

VARIABLES x, y, d,      \* operands and derivatives [x, y, hxx, hyy, hxy] (second ones halved)
          ix, iy,       \* pairs under the iterators (END: finished)
          rG, rH, rD,   \* result: gradient, half Hessian, variables present
          done
vars == <<x, y, d, ix, iy, rG, rH, rD, done>>

\* pairs an iterator visits: skip missing ones if skip
Visits(o, skip) == {<<i, i>> : i \in o.D} \cup (IF skip \/ BUG = "skipalways" THEN o.T ELSE Prs(o.D))
\* the iterator's successor
Succ(o, skip, p) == LET S == {q \in Visits(o, skip) : Less(p, q)} IN IF S = {} THEN END ELSE Min(S)
First(o, skip) == Succ(o, skip, <<0, 0>>)

Init ==
  /\ x \in Operands(GX, HX, IF FULL THEN SUBSET Ids ELSE {{}, {1}})
  /\ y \in Operands(GY, HY, IF FULL THEN SUBSET Ids ELSE {{}})
  /\ d \in [x : {0, 2}, y : {0, 3}, hxx : {0, 1}, hyy : {0, -1}, hxy : {0, 2}]
  /\ ix = First(x, d.hxx = 0) /\ iy = First(y, d.hyy = 0)
  /\ rG = [i \in Ids |-> 0] /\ rH = [p \in Pairs |-> 0] /\ rD = {} /\ done = FALSE

Merge ==
  /\ ~done /\ (ix # END \/ iy # END)
  /\ LET p == IF Less(ix, iy) THEN ix ELSE iy
         ax == ix = p  ay == iy = p
         hx == IF ax THEN d.hxx * x.G[p[1]] * x.G[p[2]] + d.x * x.H[p] ELSE 0
         hy == IF ay THEN d.hyy * y.G[p[1]] * y.G[p[2]] + d.y * y.H[p] ELSE 0 IN
     /\ rH' = [rH EXCEPT ![p] = hx + hy]
     /\ IF p[1] = p[2] THEN /\ rD' = rD \cup {p[1]}
                            /\ rG' = [rG EXCEPT ![p[1]] = (IF ax THEN d.x * x.G[p[1]] ELSE 0) + (IF ay THEN d.y * y.G[p[1]] ELSE 0)]
        ELSE UNCHANGED <<rD, rG>>
     /\ ix' = IF ax THEN Succ(x, d.hxx = 0, ix) ELSE ix
     /\ iy' = IF ay THEN Succ(y, d.hyy = 0, iy) ELSE iy
  /\ UNCHANGED <<x, y, d, done>>

Cross ==
  /\ ~done /\ ix = END /\ iy = END
  /\ done' = TRUE
  /\ rH' = [p \in Pairs |->
        LET i == p[1] j == p[2] a == d.hxy * x.G[i] * y.G[j] b == d.hxy * x.G[j] * y.G[i] IN
        IF i = j THEN rH[p] + (IF BUG = "diagtwice" THEN 1 ELSE 2) * a
        ELSE rH[p] + a + (IF BUG = "nocross" THEN 0 ELSE b)]
  /\ UNCHANGED <<x, y, d, ix, iy, rG, rD>>
Next == Merge \/ Cross

\* the dense meaning (halved)
DenseG == [i \in Ids |-> d.x * x.G[i] + d.y * y.G[i]]
DenseH == [p \in Pairs |-> LET i == p[1] j == p[2] IN
  d.x * x.H[p] + d.y * y.H[p] + d.hxx * x.G[i] * x.G[j] + d.hyy * y.G[i] * y.G[j] + d.hxy * (x.G[i] * y.G[j] + x.G[j] * y.G[i])]
Refines == done => rG = DenseG /\ rH = DenseH /\ rD = x.D \cup y.D

RECURSIVE Flat(_, _)
Flat(f, i) == IF i > N THEN "" ELSE ToString(f[i]) \o " " \o Flat(f, i + 1)
RECURSIVE FlatP(_, _, _)
FlatP(f, i, j) == IF i > N THEN "" ELSE IF j > N THEN FlatP(f, i + 1, i + 1) ELSE ToString(f[<<i, j>>]) \o " " \o FlatP(f, i, j + 1)
Mask(o) == Flat([i \in Ids |-> IF i \in o.D THEN 1 ELSE 0], 1) \o FlatP([p \in Pairs |-> IF p \in o.T THEN 1 ELSE 0], 1, 1)
Op(o) == Mask(o) \o Flat(o.G, 1) \o FlatP(o.H, 1, 1)
Emit == IF EMIT /\ done' THEN
          PrintT("P " \o ToString(N) \o " " \o Op(x) \o Op(y) \o ToString(d.x) \o " " \o ToString(d.y) \o " " \o ToString(2 * d.hxx) \o " "
                 \o ToString(2 * d.hyy) \o " " \o ToString(2 * d.hxy) \o " | " \o Flat(rG', 1) \o FlatP([p \in Pairs |-> 2 * rH'[p]], 1, 1)
                 \o ToString(Cardinality(rD')))
        ELSE TRUE
=============================================================================
