-------------------------------- MODULE Ids --------------------------------
(***************************************************************************)
(* Fresh ids in a process that constructs variables without end.  The      *)
(* counter has W bits, two's complement; DESIGN says how it moves:         *)
(*   "count"  one more at each construction                   (the code)   *)
(*   "reuse"  the id of a destroyed variable is given out again  (wrong:   *)
(*            results that depend on the destroyed one still mention it)   *)
(* Fresh holds as long as fewer than 2^(W-1) variables were constructed:   *)
(* with B at least that, TLC shows the failure (ids become negative), so W *)
(* must be such that no process can get there.                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS W, B, DESIGN
VARIABLES ctr, n, given, live, mentioned, last
vars == <<ctr, n, given, live, mentioned, last>>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Wrap(x) == IF x >= Pow2(W - 1) THEN x - Pow2(W) ELSE x
Init == ctr = 0 /\ n = 0 /\ given = {} /\ live = {} /\ mentioned = {} /\ last = 1
Free == given \ live
Make == /\ n < B /\ n' = n + 1
        /\ \E i \in (IF DESIGN = "reuse" /\ Free # {} THEN Free ELSE {Wrap(ctr + 1)}) :
             /\ last' = (IF i > 0 /\ i \notin live \cup mentioned THEN 1 ELSE 0)
             /\ given' = given \cup {i} /\ live' = live \cup {i}
             /\ ctr' = IF DESIGN = "reuse" /\ Free # {} THEN ctr ELSE Wrap(ctr + 1)
        /\ UNCHANGED mentioned
\* a result computed from a variable keeps mentioning it
Compute == \E i \in live : mentioned' = mentioned \cup {i} /\ UNCHANGED <<ctr, n, given, live, last>>
Destroy == \E i \in live : live' = live \ {i} /\ UNCHANGED <<ctr, n, given, mentioned, last>>
Next == Make \/ Compute \/ Destroy
Fresh == last = 1
=============================================================================
