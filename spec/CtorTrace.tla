------------------------------ MODULE CtorTrace ------------------------------
(* Constructions of UReal and UReal2, and named distributions, recorded by  *)
(* harness/ctor.cpp.  The moments of an accepted variable x are observed    *)
(* through its own moments and those of a d + b d^2, d = x - mean.          *)
EXTENDS Second, Json, IOUtils
D == INSTANCE Distr
CONSTANT Props
Histories == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES history, pos, bad
vars == <<history, pos, bad>>
P(s) == TLCEval([i \in 1..Len(s) |-> RParse(s[i])])
Iff(c, e) == IF c THEN {} ELSE {e}
MatchSeq(got, want, scale, k) == \A i \in 1..Len(want) : RIsNum(got[i]) /\ RClose(got[i], want[i], k, scale[i])
\* o: what the harness observed; M: exact central moments; mean
Observed(o, M, mean, k, tag) ==
  LET x == [g |-> <<1>>, h |-> <<0>>]
      z == [g |-> <<RParse(o.a)>>, h |-> <<RMul(2, RParse(o.b))>>]
      M1 == <<M>> IN
  Iff(RIsNum(RParse(o.fn)) /\ RClose(RParse(o.fn), mean, k, RAbs(mean)) /\ RIsNum(RParse(o.n)) /\ RClose(RParse(o.n), mean, k, RAbs(mean)), <<tag, "mean", o.fn, o.n>>) \cup
  Iff(RIsNum(RParse(o.s)) /\ RLe(0, RParse(o.s)) /\ RClose(RPow(RParse(o.s), 2), M[1], k, M[1]), <<tag, "standard deviation", o.s>>) \cup
  Iff(MatchSeq(P(o.mx), Moments(x, M1), MomentScales(x, M1), k), <<tag, "moments", o.mx>>) \cup
  Iff(MatchSeq(P(o.mz), Moments(z, M1), MomentScales(z, M1), k), <<tag, "moments up to the eighth", o.mz>>) \cup
  \* (without uncertainty the result need not be a variable at all)
  Iff(o.ind /\ ((o.id = 0 /\ REq(M[1], 0)) \/ (o.id > o.before /\ o.id # o.other)) /\ REq(RParse(o.cov), 0), <<IF tag = "C18" THEN "C05" ELSE tag, "not a new variable", o.id>>)
Fails(e) ==
  CASE e.op = "crash" -> {<<IF e.in = "distr" THEN "C19" ELSE "C18", e.how, e.in>>}
    [] e.op = "ureal" ->
      LET s == RParse(e.s) IN
      IF RLt(s, 0) THEN Iff(e.ex = "invalid_argument", <<"C18", "negative standard deviation accepted", e.ex>>)
      ELSE Iff(e.ex = "" /\ e.gn = e.n /\ e.gs = e.s, <<"C18", "UReal", e.ex, e.gn, e.gs>>)
    [] e.op = "new2" ->
      LET std == e.form = "std"
          m == P(e.mom)
          raw == IF std THEN <<1, 0, 1>> \o m ELSE <<1, 0>> \o m
          neg == std /\ RLt(RParse(e.s), 0)
          t == RParse(e.t)
          lam == RParse(e.lam) IN
      IF neg THEN Iff(e.ex = "invalid_argument", <<"C18", "negative standard deviation accepted", e.ex>>)
      ELSE IF ~RLt(t, 0) /\ ~D!LargestIs(D!Hankel(raw), lam, RFrac(1, 65536)) THEN Assert(FALSE, <<"wrong eigenvalue witness", e>>)
      ELSE IF e.ex \notin D!Outcomes(raw, t, lam, RAdd(RPow(2, -e.k), RMul(t, RFrac(1, 32768)))) THEN {<<"C18", "outcome", e.ex>>}
      ELSE IF e.ex # "" \/ (~std /\ RLt(m[1], 0)) THEN {}      \* (a negative variance within the threshold: no meaning)
      ELSE Observed(e.o, IF std THEN D!FromStd(RParse(e.s), m) ELSE m, RParse(e.n), e.k, "C18")
    [] e.op = "distr" ->
      LET p == RParse(e.p)  q == RParse(e.q)
          invalid == CASE e.f = "normal" -> RLt(q, 0) [] e.f = "uniform" -> RLt(q, p) [] OTHER -> RLt(p, 0) IN
      IF invalid THEN Iff(e.ex = "invalid_argument", <<"C19", "invalid parameters accepted", e.ex>>)
      ELSE IF e.ex # "" THEN {<<"C19", "exception", e.ex>>}
      ELSE IF e.f = "chisquare" /\ REq(p, 0)
        THEN Iff(e.o.fn = "0" /\ e.o.n = "0" /\ e.o.s = "0" /\ e.o.ind /\ e.o.id = 0 /\ \A i \in 1..4 : e.o.mx[i] = "0" /\ e.o.mz[i] = "0", <<"C19", "chisquare(0)">>)
      ELSE CASE e.f = "normal" -> Observed(e.o, D!Normal(q), p, e.k, "C19")
             [] e.f = "uniform" ->
               LET w == RSub(q, p) mid == RMul(RFrac(1, 2), RAdd(p, q)) IN
               \* the mean may cancel: compare with the scale of the parameters
               Observed([e.o EXCEPT !.fn = IF RClose(RParse(@), mid, e.k, RAdd(RAbs(p), RAbs(q))) THEN e.mid ELSE @,
                                    !.n = IF RClose(RParse(@), mid, e.k, RAdd(RAbs(p), RAbs(q))) THEN e.mid ELSE @], D!Uniform(w), RParse(e.mid), e.k, "C19")
             [] OTHER -> Observed(e.o, D!ChiSquare(p), p, e.k, "C19")
Init == history \in 1..Len(Histories) /\ pos = 0 /\ bad = {}
Next == /\ bad = {} /\ pos < Len(Histories[history].ev)
        /\ pos' = pos + 1
        /\ bad' = Fails(Histories[history].ev[pos + 1])
        /\ UNCHANGED history
Conforms == \A b \in bad : b[1] \notin Props
Brief == [history |-> history, pos |-> pos, bad |-> {b \in bad : b[1] \in Props}, ev |-> IF pos = 0 THEN "" ELSE Histories[history].ev[pos]]
=============================================================================
