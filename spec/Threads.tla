----------------------------- MODULE Threads -----------------------------
(***************************************************************************)
(* Concurrency of the library at the level of its shared state:            *)
(*  - the id counter, used by every construction of an independent         *)
(*    variable;                                                            *)
(*  - a variable shared by several threads that only use it through const  *)
(*    operations.                                                          *)
(* Each thread makes K constructions and then K reads of the shared        *)
(* variable.  The variable's true spread is 7 and its cache is empty (-1). *)
(*                                                                         *)
(* DESIGN of the counter:  "fetch"  one atomic increment (the code)        *)
(*                         "cas"    load, compare-and-swap, retry          *)
(*                         "split"  load, store               (wrong)      *)
(*                         "local"  one counter per thread    (wrong)      *)
(* READS:   "pure"   compute and return (the code)                         *)
(*          "lazy"   fill the cache; a data race      (wrong)              *)
(*          "flag"   set the flag, then the value     (wrong)              *)
(*          "none"   no reads                                              *)
(* With EMIT, every maximal interleaving is printed; harness/sched.cpp     *)
(* runs it on the real constructors (harness/sched.cpp).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, K, DESIGN, READS, EMIT
VARIABLES counter, mine, pc, reg, got, nread, cache, flag, seen, sched
vars == <<counter, mine, pc, reg, got, nread, cache, flag, seen, sched>>
view == IF EMIT THEN vars ELSE <<counter, mine, pc, reg, got, nread, cache, flag, seen>>
Th == 1..T
True == 7

Init == /\ counter = 0 /\ mine = [t \in Th |-> 0]
        /\ pc = [t \in Th |-> "idle"] /\ reg = [t \in Th |-> 0]
        /\ got = [t \in Th |-> <<>>] /\ nread = [t \in Th |-> 0]
        /\ cache = -1 /\ flag = FALSE /\ seen = [t \in Th |-> {}]
        /\ sched = <<>>

Step(t) == sched' = Append(sched, t)
Give(t, i) == got' = [got EXCEPT ![t] = Append(@, i)]
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Allocating(t) == Len(got[t]) < K

Fetch(t) == /\ DESIGN = "fetch" /\ pc[t] = "idle" /\ Allocating(t)
            /\ counter' = counter + 1 /\ Give(t, counter + 1) /\ Step(t)
            /\ UNCHANGED <<mine, pc, reg, nread, cache, flag, seen>>
Local(t) == /\ DESIGN = "local" /\ pc[t] = "idle" /\ Allocating(t)
            /\ mine' = [mine EXCEPT ![t] = @ + 1] /\ Give(t, mine[t] + 1) /\ Step(t)
            /\ UNCHANGED <<counter, pc, reg, nread, cache, flag, seen>>
Load(t) == /\ DESIGN \in {"cas", "split"} /\ pc[t] = "idle" /\ Allocating(t)
           /\ reg' = [reg EXCEPT ![t] = counter] /\ Goto(t, "store") /\ Step(t)
           /\ UNCHANGED <<counter, mine, got, nread, cache, flag, seen>>
Store(t) == /\ DESIGN = "split" /\ pc[t] = "store"
            /\ counter' = reg[t] + 1 /\ Give(t, reg[t] + 1) /\ Goto(t, "idle") /\ Step(t)
            /\ UNCHANGED <<mine, reg, nread, cache, flag, seen>>
Swap(t) == /\ DESIGN = "cas" /\ pc[t] = "store" /\ Step(t)
           /\ IF counter = reg[t]
              THEN /\ counter' = reg[t] + 1 /\ Give(t, reg[t] + 1) /\ Goto(t, "idle") /\ UNCHANGED reg
              ELSE /\ reg' = [reg EXCEPT ![t] = counter] /\ UNCHANGED <<counter, got, pc>>
           /\ UNCHANGED <<mine, nread, cache, flag, seen>>

\* reads of the shared variable
Reading(t) == READS # "none" /\ ~Allocating(t) /\ nread[t] < K
Return(t, v) == /\ seen' = [seen EXCEPT ![t] = @ \union {v}] /\ nread' = [nread EXCEPT ![t] = @ + 1]
Pure(t) == /\ READS = "pure" /\ Reading(t) /\ pc[t] = "idle" /\ Return(t, IF cache >= 0 THEN cache ELSE True) /\ Step(t)
           /\ UNCHANGED <<counter, mine, pc, reg, got, cache, flag>>
Look(t) == /\ READS \in {"lazy", "flag"} /\ Reading(t) /\ pc[t] = "idle" /\ Step(t)
           /\ IF IF READS = "lazy" THEN cache >= 0 ELSE flag
              THEN Return(t, cache) /\ UNCHANGED pc
              ELSE Goto(t, IF READS = "lazy" THEN "wvalue" ELSE "wflag") /\ UNCHANGED <<seen, nread>>
           /\ UNCHANGED <<counter, mine, reg, got, cache, flag>>
WFlag(t) == /\ pc[t] = "wflag" /\ flag' = TRUE /\ Goto(t, "wvalue") /\ Step(t)
            /\ UNCHANGED <<counter, mine, reg, got, nread, cache, seen>>
WValue(t) == /\ pc[t] = "wvalue" /\ cache' = True /\ Goto(t, "idle") /\ Return(t, True) /\ Step(t)
             /\ UNCHANGED <<counter, mine, reg, got, flag>>

Next == \E t \in Th : \/ Fetch(t) \/ Local(t) \/ Load(t) \/ Store(t) \/ Swap(t)
                      \/ Pure(t) \/ Look(t) \/ WFlag(t) \/ WValue(t)

-----------------------------------------------------------------------------
(* The abstract meaning: ids given out by all threads are positive and     *)
(* pairwise different, whatever the order.  ids: one sequence per thread.  *)
Elems(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumLen(_, _)
SumLen(ids, n) == IF n = 0 THEN 0 ELSE Len(ids[n]) + SumLen(ids, n - 1)
DistinctIds(ids) == LET all == UNION {Elems(ids[t]) : t \in DOMAIN ids}
                    IN  Cardinality(all) = SumLen(ids, Len(ids)) /\ \A i \in all : i > 0

Distinct == DistinctIds(got)
ReadsOK == \A t \in Th : seen[t] \subseteq {True}
(* no two threads are about to access the same plain location, one writing *)
Access(t) == CASE pc[t] = "wflag" -> {<<"flag", "w">>}
               [] pc[t] = "wvalue" -> {<<"cache", "w">>}
               [] pc[t] = "store" -> {}          \* the counter is atomic
               [] Reading(t) -> IF READS = "flag" THEN {<<"flag", "r">>, <<"cache", "r">>} ELSE {<<"cache", "r">>}
               [] OTHER -> {}
NoRace == \A s, t \in Th : s # t =>
            \A a \in Access(s), b \in Access(t) : a[1] = b[1] => (a[2] = "r" /\ b[2] = "r")

Done == \A t \in Th : ~Allocating(t) /\ (READS = "none" \/ nread[t] = K)
RECURSIVE Str(_)
Str(s) == IF s = <<>> THEN "" ELSE ToString(Head(s)) \o Str(Tail(s))
Emit == (EMIT /\ Done') => PrintT("P " \o Str(sched'))
=============================================================================
