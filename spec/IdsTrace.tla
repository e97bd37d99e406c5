------------------------------ MODULE IdsTrace ------------------------------
(***************************************************************************)
(* Variables constructed early and late in a process that constructs more  *)
(* of them than a 32 bit counter can tell (harness/many.cpp).              *)
(*  make  id, of: kind of construction; s, self: uncertainty and variance  *)
(*        of the variable; covs: covariances with all the previous ones    *)
(*  mix   two variables i, j: covariances of their sum with them, and its  *)
(*        variance; of the product divided by the means                    *)
(* All have uncertainty 1.  A behaviour of Ids iff every id is fresh.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, Rat
CONSTANT Props
M == INSTANCE Ids WITH W <- 64, B <- 0, DESIGN <- "count", ctr <- 0, n <- 0, given <- {}, live <- {}, mentioned <- {}, last <- 1
Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES history, pos, ids, bad
vars == <<history, pos, ids, bad>>
Say(ok, what) == IF ok THEN {} ELSE {what}
Near(a, b) == LET x == RParse(a) IN RIsNum(x) /\ RLe(RAbs(RSub(x, b)), RFrac(1, 1048576))
Positive(i) == RLt(0, RParse(i))
Judge(e) ==
  CASE e.op = "crash" -> {"crash: " \o e.how \o " in " \o e.in}
    [] e.op = "make" ->
         Say(Positive(e.id), "id " \o e.id \o " of " \o e.of)
         \cup Say(e.id \notin ids, "id given out before: " \o e.id \o " to " \o e.of)
         \cup Say(e.ind, "a new variable is not independent: " \o e.of)
         \cup Say(Near(e.s, 1) /\ Near(e.self, 1), "uncertainty of a new variable: " \o e.of)
         \cup Say(\A k \in 1..Len(e.covs) : Near(e.covs[k], 0), "a new variable is correlated with an older one: " \o e.of)
    [] OTHER ->
         Say(Near(e.ci, 1) /\ Near(e.cj, 1) /\ Near(e.v, 2), "sum of two variables") \cup Say(Near(e.pv, 2), "product of two variables")
Init == history \in 1..Len(Log) /\ pos = 0 /\ ids = {} /\ bad = {}
Next == /\ bad = {} /\ pos < Len(Log[history].ev)
        /\ pos' = pos + 1
        /\ LET e == Log[history].ev[pos + 1] IN
             /\ bad' = Judge(e)
             /\ ids' = IF e.op = "make" THEN ids \cup {e.id} ELSE ids
        /\ UNCHANGED history
Conforms == "C05" \in Props => bad = {}
Brief == [history |-> history, pos |-> pos, bad |-> bad]
=============================================================================
