---------------------------- MODULE UnitsTrace ----------------------------
(***************************************************************************)
(* Histories recorded from programs of several translation units.          *)
(*  static  unit, ids: the variables constructed by the unit before main;  *)
(*          dig: the result it computed then                               *)
(*  make    unit, type, id: a construction ordered by main                 *)
(*  again   unit, dig: the result computed again by the unit               *)
(*  sums    var1: variance of the sum of all variables of UReal types (1   *)
(*          to 3) so far; var2: of UReal2 types (4, 5).  All have standard *)
(*          deviation 1, so it is their number if they are independent     *)
(*  total   ids of every construction of the process                       *)
(* A history is a behaviour of Units iff every id is fresh and every       *)
(* result is the same.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
CONSTANT Props
M == INSTANCE Units WITH U <- 2, T <- 5, K <- 1, DESIGN <- "one", EMIT <- FALSE,
       order <- <<>>, inited <- 0, ctr <- <<>>, objs <- <<>>, table <- 0, results <- {}, prog <- <<>>
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES history, pos, objs, results, bad
vars == <<history, pos, objs, results, bad>>
Say(ok, what) == IF ok THEN {} ELSE {what}
New(e) == CASE e.op = "static" -> [i \in 1..Len(e.ids) |-> [unit |-> e.unit, type |-> i, id |-> e.ids[i]]]
            [] e.op = "make" -> <<[unit |-> e.unit, type |-> e.type, id |-> e.id]>>
            [] OTHER -> <<>>
Got(e) == IF e.op \in {"static", "again"} THEN {e.dig} ELSE {}
Number(o, a, b) == Cardinality({i \in 1..Len(o) : o[i].type \in a..b})
Judge(e, o, r) ==
  Say(M!Positive(o), "an id is not positive")
  \cup Say(M!Distinct(o), "two variables have the same id")
  \cup Say(Cardinality(r) <= 1, "the same expressions give different results")
  \cup (CASE e.op = "sums" -> Say(e.var1 = Number(o, 1, 3) /\ e.var2 = Number(o, 4, 5), "variables of different constructions are correlated")
         [] e.op = "total" -> Say(Cardinality({e.ids[i] : i \in 1..Len(e.ids)}) = Len(e.ids), "an id was given out twice")
         [] e.op = "crash" -> {"crash: " \o e.how \o " in " \o e.in}
         [] OTHER -> {})
Init == history \in 1..Len(Log) /\ pos = 0 /\ objs = <<>> /\ results = {} /\ bad = {}
Next == /\ pos < Len(Log[history].ev)
        /\ pos' = pos + 1
        /\ LET e == Log[history].ev[pos + 1] IN
             /\ objs' = objs \o New(e) /\ results' = results \cup Got(e)
             /\ bad' = Judge(e, objs', results')
        /\ UNCHANGED history
Conforms == "C21" \in Props => bad = {}
Brief == [history |-> history, pos |-> pos, bad |-> bad]
=============================================================================
