---------------------------- MODULE FaultsTrace ----------------------------
(***************************************************************************)
(* Programs of Faults run on a real type by harness/faults.cpp.  Values    *)
(* are digests of everything that can be observed of a variable.  One      *)
(* event is an operation failed at each point in turn and then completed:  *)
(*  before  registers before                                               *)
(*  tries   distinct outcomes of the failures: how ("m": out of memory,    *)
(*          "c": callable of the user; then what the operation did), d:    *)
(*          registers after, back: after the target was assigned again,    *)
(*          grown: blocks of memory that one more failure retains, again,  *)
(*          againtext: result of the operation run once more, not failed   *)
(*  ref     result of the operation when nothing fails                     *)
(*  after   registers after it completed at last; text: text it returned   *)
(* Standard streams swallow the lack of memory, so the text of a format    *)
(* that failed silently is not judged.                                     *)
(* The history is a behaviour of Faults iff every Fail, Restore and Finish *)
(* leaves the registers as there.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
CONSTANT Props
F == INSTANCE Faults WITH R <- 2, N <- 1, K <- 1, DESIGN <- "fresh", EMIT <- FALSE,
       val <- <<>>, ideal <- <<>>, known <- {}, scratch <- 0, memo <- 0, live <- 0, run <- <<>>, prog <- <<>>, wrong <- FALSE
Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES history, pos, ideal, bad
vars == <<history, pos, ideal, bad>>
Say(ok, what) == IF ok THEN {} ELSE {what}
Ev(h, k) == Log[h].ev[k]
Same(d, v, but) == Len(d) = Len(v) /\ \A r \in 1..Len(v) : r \in but \/ d[r] = v[r]
\* one failure of the operation e, registers v before
FailJudge(e, y, v) ==
  LET w == F!Writes(e)
      ok == y.how \in {"mok", "cok"}       \* the operation did without the memory
      n == ToString(y.k) \o " of " \o ToString(e.points) \o " in " \o e.name IN
  Say(y.how \in {"mbad_alloc", "cboom", "mok"}, "failure " \o n \o " reported as " \o y.how)
  \cup (IF ok THEN Say(Same(y.d, IF w THEN [v EXCEPT ![e.t] = e.ref] ELSE v, {}) /\ (w \/ e.name = "format" \/ y.text = e.reftext), "wrong result, no failure reported: " \o n)
        ELSE Say(Same(y.d, v, IF w THEN {e.t} ELSE {}), "another variable changed by failure " \o n))
  \cup Say(Same(y.back, v, {}), "registers after assigning the target again, failure " \o n)
  \cup Say(IF w THEN y.again = e.ref ELSE y.again = "" /\ y.againtext = e.reftext, "result of the operation run again after failure " \o n)
  \cup Say(y.grown <= 0, "memory retained by failure " \o n)
Judge(e, v) ==
  IF e.op = "crash" THEN {"crash: " \o e.how \o " in " \o e.in}
  ELSE LET w == F!Writes(e)
           u == IF w THEN [v EXCEPT ![e.t] = e.ref] ELSE v IN
       Say(Same(e.before, v, {}), "registers changed between operations")
       \cup (UNION {FailJudge(e, e.tries[i], v) : i \in 1..Len(e.tries)})
       \cup Say(e.points < 400, "more failure points than expected")
       \cup Say(Same(e.after, u, {}), "registers after " \o e.name \o " completed")
       \cup Say(w \/ e.text = e.reftext, "result of " \o e.name \o " after failures")
After(e, v) == IF e.op = "crash" THEN v ELSE IF F!Writes(e) THEN [v EXCEPT ![e.t] = e.ref] ELSE v
Init == /\ history \in 1..Len(Log) /\ pos = 0 /\ bad = {}
        /\ ideal = IF Ev(history, 1).op = "crash" THEN <<>> ELSE Ev(history, 1).before
Next == /\ bad = {} /\ pos < Len(Log[history].ev)
        /\ pos' = pos + 1
        /\ LET e == Ev(history, pos + 1) IN
             /\ bad' = Judge(e, ideal)
             /\ ideal' = After(e, ideal)
        /\ UNCHANGED history
Conforms == "C23" \in Props => bad = {}
Brief == [history |-> history, pos |-> pos, bad |-> bad]
=============================================================================
