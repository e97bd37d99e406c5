------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* Operations that fail half-way.  Registers hold values; an operation     *)
(* takes N steps and the environment may make it fail at any of them (no   *)
(* memory, or the callable given by the user throws).  A failed operation  *)
(* leaves the target of an in-place operation in an unknown, assignable    *)
(* state; every other register, and the results of all later operations,   *)
(* are those of a run in which the failed operation never started; no      *)
(* memory is retained.                                                     *)
(*                                                                         *)
(* DESIGN: "fresh"    the result is made in a new object      (the code)   *)
(*         "inplace"  the target is updated step by step      (the code)   *)
(*         "scratch"  the result is made in a buffer shared by all calls,  *)
(*                    emptied after use                       (wrong)      *)
(*         "steal"    an operand is moved out and back        (wrong)      *)
(*         "leak"     memory released only at the end         (wrong)      *)
(*         "memo"     the result is remembered before it is complete (wrong) *)
(* With EMIT, every program of K operations is printed: harness/faults.cpp *)
(* runs it on the real types, failing each operation at every step.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS R, N, K, DESIGN, EMIT
VARIABLES val, ideal, known, scratch, memo, live, run, prog, wrong
vars == <<val, ideal, known, scratch, memo, live, run, prog, wrong>>
Regs == 1..R
\* 1 new  2 copy  3 binary  4 in place  5 callable  6 callable of two  7 conversion
\* 8 mathematical function  9 text  10 vector with a covariance matrix  11 matrices  12 sequence (nary)
\* 13 invalid arguments
Instances ==
  [kind : {1, 10, 11}, t : Regs, a : {1}, b : {1}]
  \cup {i \in [kind : {2, 7}, t : Regs, a : Regs, b : {1}] : i.kind = 7 \/ i.t # i.a}
  \cup {i \in [kind : {3, 6, 8, 12}, t : Regs, a : Regs, b : Regs] : i.a <= i.b}
  \cup [kind : {4, 5}, t : Regs, a : Regs, b : {1}]
  \cup [kind : {9, 13}, t : {1}, a : Regs, b : {1}]
Writes(i) == i.kind \notin {9, 11, 13}
M == 5
Value(i, v) == CASE i.kind = 1 -> 1
                 [] i.kind \in {2, 7} -> v[i.a]
                 [] i.kind \in {3, 6, 8, 12} -> (v[i.a] + v[i.b]) % M
                 [] i.kind = 4 -> (v[i.t] + v[i.a]) % M
                 [] i.kind = 5 -> (v[i.a] + 2) % M
                 [] i.kind = 10 -> 3
                 [] OTHER -> (v[i.a] + 1) % M
Idle == [kind |-> 0, t |-> 1, a |-> 1, b |-> 1, step |-> 0]
Init == /\ val = [r \in Regs |-> r] /\ ideal = val /\ known = Regs
        /\ scratch = 0 /\ memo = 0 /\ live = 0 /\ run = Idle /\ prog = <<>> /\ wrong = FALSE
Reads(i) == IF i.kind \in {1, 10} THEN {} ELSE IF i.kind = 4 THEN {i.t, i.a} ELSE IF i.kind \in {3, 6, 8, 12} THEN {i.a, i.b}
            ELSE IF i.kind = 11 THEN Regs ELSE {i.a}
Start == /\ run.kind = 0 /\ Len(prog) < K
         /\ \E i \in Instances :
              /\ Reads(i) \subseteq known
              /\ run' = [kind |-> i.kind, t |-> i.t, a |-> i.a, b |-> i.b, step |-> 0]
              /\ prog' = Append(prog, <<i.kind, i.t, i.a, i.b>>)
              /\ val' = IF DESIGN = "steal" /\ i.kind = 4 /\ i.a # i.t THEN [val EXCEPT ![i.a] = 0] ELSE val
         /\ UNCHANGED <<ideal, known, scratch, memo, live, wrong>>
Work == /\ run.kind # 0 /\ run.step < N
        /\ run' = [run EXCEPT !.step = @ + 1]
        /\ live' = live + 1
        /\ scratch' = IF DESIGN = "scratch" THEN scratch + 1 ELSE 0
        /\ memo' = IF DESIGN = "memo" THEN IF memo = 0 THEN run.step + 1 ELSE memo ELSE 0
        /\ val' = IF DESIGN = "inplace" /\ run.kind = 4 THEN [val EXCEPT ![run.t] = (@ + 3) % M] ELSE val
        /\ UNCHANGED <<ideal, known, prog, wrong>>
\* the right result, computed from the values the operation had to work with
Ideal == Value(run, ideal)
Got == CASE DESIGN = "scratch" -> (Ideal + scratch - N) % M
         [] DESIGN = "memo" -> (Ideal + (IF memo > 1 THEN 1 ELSE 0)) % M
         [] OTHER -> Ideal
Finish == /\ run.kind # 0 /\ run.step = N
          /\ LET v == IF DESIGN = "steal" /\ run.kind = 4 /\ run.a # run.t THEN [val EXCEPT ![run.a] = ideal[run.a]] ELSE val
                 w == Writes(run) IN
               /\ val' = IF w THEN [v EXCEPT ![run.t] = Got] ELSE v
               /\ ideal' = IF w THEN [ideal EXCEPT ![run.t] = Ideal] ELSE ideal
               /\ known' = IF w THEN known \cup {run.t} ELSE known
               /\ wrong' = (wrong \/ (~w /\ Got # Ideal))
          /\ scratch' = 0 /\ memo' = 0 /\ live' = live - N /\ run' = Idle
          /\ UNCHANGED prog
Fail == /\ run.kind # 0
        /\ run' = Idle
        /\ live' = IF DESIGN = "leak" THEN live ELSE live - run.step
        /\ scratch' = scratch
        /\ memo' = IF memo = 0 THEN 0 ELSE 2
        /\ known' = IF Writes(run) THEN known \ {run.t} ELSE known
        /\ UNCHANGED <<val, ideal, prog, wrong>>
\* the user puts the target back
Restore == /\ run.kind = 0
           /\ \E r \in Regs \ known : /\ val' = [val EXCEPT ![r] = ideal[r]]
                                      /\ known' = known \cup {r}
           /\ UNCHANGED <<ideal, scratch, memo, live, run, prog, wrong>>
Next == Start \/ Work \/ Finish \/ Fail \/ Restore
NothingElse == run.kind = 0 => \A r \in known : val[r] = ideal[r]
NoLeak == run.kind = 0 => live = 0
Right == ~wrong

\* generation of programs: only the operations that finish
GenInit == Init
GenNext == /\ Len(prog) < K
           /\ \E i \in Instances : prog' = Append(prog, <<i.kind, i.t, i.a, i.b>>)
           /\ UNCHANGED <<val, ideal, known, scratch, memo, live, run, wrong>>
Emit == IF EMIT /\ Len(prog') = K
        THEN PrintT("P " \o ToString([i \in 1..K |-> prog'[i][1] * 1000 + prog'[i][2] * 100 + prog'[i][3] * 10 + prog'[i][4]])) ELSE TRUE
=============================================================================
