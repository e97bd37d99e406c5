------------------------------ MODULE FmtTrace ------------------------------
(* Texts recorded from the real format / operator<< against module Fmt.     *)
EXTENDS Fmt, Json, IOUtils
CONSTANT Props
Histories == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES history, pos, bad
vars == <<history, pos, bad>>
Ev(h, k) == Histories[h].ev[k]

\* witnesses computed by the harness are checked
Witness(x, e) == Assert(HasExp(x, e), <<"wrong exponent witness", e>>)
Floor(d) == RToInt(RFloor(d))
Fails(e) ==
  IF e.op = "crash" THEN IF e.in = "format:C14" THEN {<<"C14", e.how, e.in>>} ELSE {<<"C15", e.how, e.in>>}
  ELSE
    LET mu == RParse(e.mu)  s == RParse(e.s)  d == RParse(e.d)
        low == ~RIsNum(d) \/ RLt(d, 1) IN
    IF low THEN IF e.ex = "invalid_argument" THEN {} ELSE {<<"C15", "errdig below 1 accepted", e.ex>>}
    ELSE IF ~RIsNum(mu) \/ ~RIsNum(s) \/ REq(IF RIsNum(s) THEN s ELSE 1, 0) THEN
      IF e.ex # "" THEN {<<"C15", "exception", e.ex>>}
      ELSE LET w == IF /\ RIsNum(mu) /\ ~REq(mu, 0) => Witness(RAbs(mu), e.em)
                       /\ RIsNum(s) /\ ~REq(s, 0) => Witness(s, e.es)
                    THEN SinglesWrong(e.c, e.sep, mu, e.em, s, e.es, e.ps, e.pm) ELSE "" IN
        IF w = "" THEN {} ELSE {<<"C15", w, e.mu, e.s, Cat(e.c, 1, Len(e.c) + 1)>>}
    ELSE
      IF e.ex # "" THEN {<<"C14", "exception", e.ex>>}
      ELSE LET n == Floor(d)
               w == IF /\ ~REq(mu, 0) => Witness(RAbs(mu), e.em)
                       /\ Witness(s, e.es)
                    THEN PairWrong(e.c, e.sep, mu, e.em, s, e.es, n, RSub(d, n), RParse(e.tl), e.p, e.ps, e.pm) ELSE "" IN
        IF w = "" THEN {} ELSE {<<"C14", w, e.mu, e.s, e.d, Cat(e.c, 1, Len(e.c) + 1)>>}
Init == history \in 1..Len(Histories) /\ pos = 0 /\ bad = {}
Next == /\ bad = {} /\ pos < Len(Histories[history].ev)
        /\ pos' = pos + 1
        /\ bad' = Fails(Ev(history, pos + 1))
        /\ UNCHANGED history
Conforms == \A b \in bad : b[1] \notin Props
Brief == [history |-> history, pos |-> pos, bad |-> {b \in bad : b[1] \in Props}, ev |-> IF pos = 0 THEN "" ELSE [Ev(history, pos) EXCEPT !["c"] = <<>>]]
=============================================================================
