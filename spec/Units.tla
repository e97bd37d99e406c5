------------------------------ MODULE Units ------------------------------
(***************************************************************************)
(* A program made of several translation units.  Unit 0 is the one that    *)
(* includes impl.hpp; the others include the remaining headers.  Before    *)
(* main, the units are initialised in some order; units other than 0       *)
(* construct variables at namespace scope (one for each type) and compute  *)
(* a result there.  Then main makes the units construct variables and      *)
(* compute the same result, in any order.                                  *)
(*                                                                         *)
(* DESIGN: "one"    one counter, initialised before any code (the code)    *)
(*         "late"   the counter starts when unit 0 is initialised (wrong)  *)
(*         "unit"   one counter for each unit                     (wrong)  *)
(*         "type"   one counter for each type                     (wrong)  *)
(*         "table"  results read a table that unit 0 fills when it is      *)
(*                  initialised                                   (wrong)  *)
(* With EMIT, every program of main of length K is printed;                *)
(* harness/units_main.cpp runs it on executables linked in every order.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS U, T, K, DESIGN, EMIT
VARIABLES order, inited, ctr, objs, table, results, prog
vars == <<order, inited, ctr, objs, table, results, prog>>
Units == 1..U
Types == 1..T
Orders == {p \in [1..(U + 1) -> 0..U] : \A i, j \in 1..(U + 1) : p[i] = p[j] => i = j}

Key(u, t) == CASE DESIGN = "unit" -> <<u, 0>> [] DESIGN = "type" -> <<0, t>> [] OTHER -> <<0, 0>>
Result == 42
Compute == IF DESIGN = "table" THEN table ELSE Result

Init == /\ order \in Orders /\ inited = 0
        /\ ctr = [k \in (0..U) \X (0..T) |-> 0]
        /\ objs = <<>> /\ results = {} /\ prog = <<>>
        /\ table = IF DESIGN = "table" THEN 0 ELSE Result

RECURSIVE Make(_, _, _)
Make(c, o, ts) ==      \* constructs for the pairs <<unit, type>> of ts
  IF ts = <<>> THEN <<c, o>>
  ELSE LET k == Key(ts[1][1], ts[1][2]) IN
       Make([c EXCEPT ![k] = @ + 1], Append(o, [unit |-> ts[1][1], type |-> ts[1][2], id |-> c[k] + 1]), Tail(ts))

InitImpl == /\ inited < U + 1 /\ order[inited + 1] = 0 /\ inited' = inited + 1
            /\ ctr' = IF DESIGN = "late" THEN [k \in DOMAIN ctr |-> 0] ELSE ctr
            /\ table' = Result
            /\ UNCHANGED <<order, objs, results, prog>>
InitUnit == /\ inited < U + 1 /\ order[inited + 1] # 0 /\ inited' = inited + 1
            /\ LET u == order[inited + 1]
                   m == Make(ctr, objs, [t \in Types |-> <<u, t>>])
               IN  ctr' = m[1] /\ objs' = m[2]
            /\ results' = results \cup {Compute}
            /\ UNCHANGED <<order, table, prog>>
Construct(u, t) ==
            /\ inited = U + 1 /\ Len(prog) < K
            /\ LET m == Make(ctr, objs, <<<<u, t>>>>) IN ctr' = m[1] /\ objs' = m[2]
            /\ prog' = Append(prog, <<u, t>>)
            /\ UNCHANGED <<order, inited, table, results>>
Again(u) == /\ inited = U + 1 /\ Len(prog) < K
            /\ results' = results \cup {Compute}
            /\ prog' = Append(prog, <<u, 0>>)
            /\ UNCHANGED <<order, inited, ctr, objs, table>>
Next == InitImpl \/ InitUnit \/ \E u \in Units : Again(u) \/ \E t \in Types : Construct(u, t)

Distinct(o) == \A i, j \in 1..Len(o) : i # j => o[i].id # o[j].id
Positive(o) == \A i \in 1..Len(o) : o[i].id > 0
Fresh == Distinct(objs) /\ Positive(objs)
SameEverywhere == Cardinality(results) <= 1

Emit == IF EMIT /\ Len(prog') = K /\ order = [i \in 1..(U + 1) |-> i - 1]
        THEN PrintT("P " \o ToString([i \in 1..K |-> prog'[i][1] * 10 + prog'[i][2]])) ELSE TRUE
=============================================================================
