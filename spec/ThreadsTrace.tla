--------------------------- MODULE ThreadsTrace ---------------------------
(***************************************************************************)
(* Histories recorded with several threads.                                *)
(*  alloc   ids: per thread, the ids of the variables it constructed;      *)
(*          nonzero: pairs of kept variables of different origin whose     *)
(*          covariance is not zero; races: reports of the race detector    *)
(*  sched   like alloc, under an interleaving taken from Threads           *)
(*  shared  res: <<operation, digest of the sequential result, digest of   *)
(*          the concurrent one>>; diff: the first difference, as text      *)
(*  crash   the process died                                               *)
(* A history is a step of the specification iff the ids could have been    *)
(* given out by Threads in some order, and every const operation returned  *)
(* what it returns alone.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
CONSTANT Props
M == INSTANCE Threads WITH T <- 1, K <- 1, DESIGN <- "fetch", READS <- "none", EMIT <- FALSE,
       counter <- 0, mine <- <<>>, pc <- <<>>, reg <- <<>>, got <- <<>>, nread <- <<>>,
       cache <- 0, flag <- FALSE, seen <- <<>>, sched <- <<>>
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES history, pos, bad
vars == <<history, pos, bad>>
Say(ok, what) == IF ok THEN {} ELSE {what}
Judge(e) ==
  CASE e.op \in {"alloc", "sched"} ->
         Say(M!DistinctIds(e.ids), "two variables share an id, or an id is not positive")
         \union Say(e.nonzero = 0, "variables constructed by different calls are correlated")
         \union Say(e.races = 0, "data race between constructions")
    [] e.op = "shared" ->
         Say(\A i \in DOMAIN e.res : e.res[i][2] = e.res[i][3], "const operation differs from the sequential execution: " \o e.diff)
         \union Say(e.races = 0, "data race between const operations")
    [] e.op = "crash" -> {"crash: " \o e.how \o " in " \o e.in}
    [] OTHER -> {"unknown event"}
Init == history \in 1..Len(Log) /\ pos = 0 /\ bad = {}
Next == /\ pos < Len(Log[history].ev)
        /\ pos' = pos + 1
        /\ bad' = Judge(Log[history].ev[pos + 1])
        /\ UNCHANGED history
Conforms == "C06" \in Props => bad = {}
Brief == [history |-> history, pos |-> pos, bad |-> bad]
=============================================================================
