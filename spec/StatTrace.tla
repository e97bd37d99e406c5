------------------------------ MODULE StatTrace ------------------------------
(* Calls of ureals and of stat.hpp recorded by harness/stat.cpp.            *)
EXTENDS Stat, Json, IOUtils
CONSTANT Props
Histories == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES history, pos, bad
vars == <<history, pos, bad>>
P(s) == TLCEval([i \in 1..Len(s) |-> RParse(s[i])])
Num(s) == \A i \in 1..Len(s) : RIsNum(RParse(s[i]))
Iff(c, e) == IF c THEN {} ELSE {e}
Delta == RFrac(1, 4096)
Fails(e) ==
  CASE e.op = "crash" -> {<<IF e.in = "ureals" THEN "C16" ELSE "C17", e.how, e.in>>}
    [] e.op = "ureals" ->
      LET n == e.n  nc == e.nc
          A == IF nc = n * n THEN Triangle(P(e.cov), n) ELSE << >> IN
      Iff(e.out \in Outcomes(n, nc, A, Delta), <<"C16", "outcome", e.out>>) \cup
      (IF e.out = "ok" /\ nc = n * n THEN
        Iff(Len(e.mean) = n, <<"C16", "size">>) \cup
        (IF Len(e.mean) = n THEN
          Iff(Num(e.mean) /\ \A i \in 1..n : REq(RParse(e.mean[i]), RParse(e.mu[i])), <<"C16", "means", e.mean>>) \cup
          Iff(Num(e.C) /\ Reproduces(P(e.C), A, n, e.k), <<"C16", "covariance", e.C>>) \cup
          Iff(Num(e.old) /\ \A i \in 1..Len(e.old) : REq(RParse(e.old[i]), 0), <<"C16", "correlated with another variable">>) \cup
          Iff(\A i \in 1..Len(e.ids) : e.ids[i] # 0 /\ (e.ids[i] > 0 => e.ids[i] > e.before /\ \A j \in 1..Len(e.oldids) : e.ids[i] # e.oldids[j]), <<"C05", "ids of ureals", e.ids>>)
         ELSE {})
       ELSE {})
    [] e.op = "outer" ->
      Iff(Outer(e.out, e.want, e.n, e.k), <<"C17", e.f, "elements", e.out, e.want>>) \cup
      Iff(e.guard, <<"C17", e.f, "wrote outside the matrix">>) \cup
      Iff(e.ret = e.n * e.n, <<"C17", e.f, "returned iterator", e.ret>>)
    [] e.op = "corr2cov" ->
      IF Len(e.corr) # e.n * e.n THEN Iff(e.ex = "invalid_argument", <<"C17", "corr2cov accepts a wrong size", e.ex>>)
      ELSE Iff(e.ex = "" /\ Num(e.out) /\ Corr2Cov(P(e.out), P(e.sigma), P(e.corr), e.n, e.k), <<"C17", "corr2cov", e.ex, e.out>>)
    [] e.op = "nom" ->
      Iff(e.out = e.want, <<"C17", "nom_vector", e.out>>)
Init == history \in 1..Len(Histories) /\ pos = 0 /\ bad = {}
Next == /\ bad = {} /\ pos < Len(Histories[history].ev)
        /\ pos' = pos + 1
        /\ bad' = Fails(Histories[history].ev[pos + 1])
        /\ UNCHANGED history
Conforms == \A b \in bad : b[1] \notin Props
Brief == [history |-> history, pos |-> pos, bad |-> {b \in bad : b[1] \in Props}]
=============================================================================
