------------------------------ MODULE BulkTrace ------------------------------
(* Histories of harness/bulk.cpp: three registers, expressions of up to      *)
(* hundreds (first order) or tens (second order) of variables.               *)
EXTENDS Bulk, FiniteSets, Json, IOUtils
CONSTANT Props
Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES history, pos, reg, bad
vars == <<history, pos, reg, bad>>
Hdr == Log[history]
N == Hdr.n
Two == Hdr.order = 2
S == TLCEval([h \in 1..Len(Log) |-> [i \in 1..Len(Log[h].s) |-> RParse(Log[h].s[i])]])
MU == TLCEval([h \in 1..Len(Log) |-> [i \in 1..Len(Log[h].mu) |-> RParse(Log[h].mu[i])]])
s == S[history]
mu == MU[history]
P(v) == TLCEval([i \in 1..Len(v) |-> RParse(v[i])])
Const == [n |-> 0, g |-> Zero(N), H |-> IF Two THEN MZero(N) ELSE << >>]
Base(i) == [n |-> mu[i], g |-> Unit(N, i, s[i]), H |-> IF Two THEN MZero(N) ELSE << >>]
\* y + sum of c_k x_{i_k}
Acc(y, is, cs) ==
  LET C == [i \in 1..N |-> RSum([k \in 1..Len(is) |-> IF is[k] = i THEN cs[k] ELSE 0])] IN
  [y EXCEPT !.n = RAdd(y.n, RDot(C, mu)), !.g = RAxpy(1, y.g, 1, [i \in 1..N |-> RMul(C[i], s[i])])]
\* y + sum of h_k x_{i_k} x_{j_k}
RECURSIVE Quad(_, _, _, _, _)
Quad(y, is, js, hs, k) ==
  IF k = 0 THEN y
  ELSE Quad(TLCEval(Lin(1, y, hs[k], Mul(Base(is[k]), Base(js[k])))), is, js, hs, k - 1)
After(e) ==
  CASE e.op = "acc"  -> Acc(IF e.fresh THEN Const ELSE reg[e.t], e.i, P(e.c))
    [] e.op = "quad" -> Quad(reg[e.t], e.i, e.j, P(e.c), Len(e.i))
    [] e.op = "lin"  -> Lin(RParse(e.p), reg[e.a], RParse(e.q), reg[e.b])
    [] e.op = "mul"  -> Mul(reg[e.a], reg[e.b])
    [] e.op = "un"   -> Unary(reg[e.a], RParse(e.f), RParse(e.d), RParse(e.dd))
    [] OTHER -> reg[e.t]
K == 44
Near(x, w, sc) == LET o == RParse(x) IN RIsNum(o) /\ RClose(o, w, K, sc)
Nears(x, w, sc) == Len(x) = Len(w) /\ \A i \in 1..Len(w) : Near(x[i], w[i], sc)
Say(ok, what) == IF ok THEN {} ELSE {what}
In(e) == IF "ip" \in DOMAIN e /\ e.ip THEN {"C02"} ELSE {}
\* what the record says about all the registers after an operation on register e.t
Judge(e, r) ==
  IF e.op = "crash" THEN {[what |-> "crash: " \o e.how, props |-> {"C01", "C02", "C03", "C07", "C08", "C09", "C10"}]}
  ELSE
  LET y == r[e.t]  w == Norm(y)
      one == IF Two THEN {"C08"} ELSE {"C01"}
      vari == IF Two THEN {"C09", "C10"} ELSE {"C03"}
      nz == Cardinality({i \in 1..N : ~REq(y.g[i], 0)})
      G == [i \in 1..N |-> RDiv(y.g[i], s[i])] IN
  Say(Near(e.n, y.n, RAdd(w, RAbs(y.n))), [what |-> "value", props |-> one \cup In(e)])
  \cup Say(Nears(e.G, G, w), [what |-> "derivatives", props |-> one \cup In(e) \cup {"C07"}])
  \cup Say(\A k \in 1..3 : LET c == Cov(y, r[k])  m == RMul(w, Norm(r[k])) IN Near(e.cov[k], c, m) /\ Near(e.voc[k], c, m),
           [what |-> "covariances between expressions", props |-> IF Two THEN {"C10"} ELSE {"C03"}])
  \cup Say(\A k \in 1..3 : Near(e.vars[k], Cov(r[k], r[k]), RMul(Norm(r[k]), Norm(r[k]))), [what |-> "variances", props |-> vari \cup {"C04"}])
  \cup Say(Nears(e.C, [i \in 1..N |-> RMul(y.g[i], s[i])], RMul(w, 4)), [what |-> "covariances with the variables", props |-> IF Two THEN {"C10"} ELSE {"C03", "C01"}])
  \cup Say(nz <= 1 \/ (~e.ind /\ e.id < 0), [what |-> "independence", props |-> {"C05"}])
  \cup (IF ~Two THEN {} ELSE
     Say(\A i \in 1..N : Nears(e.H[i], [j \in 1..i |-> RDiv(RDiv(y.H[i][j], s[i]), s[j])], w), [what |-> "second derivatives", props |-> {"C08"} \cup In(e)])
     \cup Say(Near(e.m1, M1(y), w), [what |-> "correction of the mean", props |-> {"C09"}])
     \cup Say(e.m3 = "" \/ Near(e.m3, M3(y), RPow(w, 3)), [what |-> "third moment", props |-> {"C09"}])
     \cup Say(e.m4 = "" \/ Near(e.m4, M4(y), RPow(w, 4)), [what |-> "fourth moment", props |-> {"C09"}]))
Init == history \in 1..Len(Log) /\ pos = 0 /\ bad = {}
        /\ reg = LET n == Log[history].n IN [k \in 1..3 |-> [n |-> 0, g |-> Zero(n), H |-> IF Log[history].order = 2 THEN MZero(n) ELSE << >>]]
Next == /\ bad = {} /\ pos < Len(Log[history].ev)
        /\ pos' = pos + 1
        /\ LET e == Log[history].ev[pos + 1]
               r == IF e.op = "crash" THEN reg ELSE [reg EXCEPT ![e.t] = TLCEval(After(e))] IN
             reg' = r /\ bad' = Judge(e, r)
        /\ UNCHANGED history
Conforms == \A b \in bad : b.props \cap Props = {}
Brief == [history |-> history, pos |-> pos, bad |-> {b \in bad : b.props \cap Props # {}}]
=============================================================================
