---------------------------- MODULE SecondTrace ----------------------------
(***************************************************************************)
(* Validation of UReal2 histories recorded by harness/h2.cpp, in the same  *)
(* way as FirstTrace: each TLC step consumes one event, computes with      *)
(* module Second what the operation means for the logged operands, and     *)
(* compares with the logged result; every disagreement is recorded with    *)
(* the properties it contradicts.                                          *)
(***************************************************************************)
EXTENDS Second, Extreme, MathFn, Poly, Json, IOUtils
CONSTANT Props

Histories == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES tr, pos, regs, sup, bases, used, bad
vars == <<tr, pos, regs, sup, bases, used, bad>>

Regs == 1..Histories[tr].R
K == Histories[tr].k
Eta == RPow(2, Histories[tr].em + K)     \* relative to the smallest normal number
NoReg == [n |-> "0", g |-> << >>, h |-> << >>, ind |-> TRUE, id |-> 0]

Init ==
  /\ tr \in 1..Len(Histories)
  /\ pos = 0
  /\ regs = [r \in Regs |-> NoReg]
  /\ sup = [r \in Regs |-> {}]
  /\ bases = << >>
  /\ used = {}
  /\ bad = {}
-----------------------------------------------------------------------------
Parse(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN RParse(s[i]) ELSE 0]
View(x, m) == TLCEval([n |-> RParse(x.n), g |-> Parse(x.g, m), h |-> Parse(x.h, NTri(m))])
AllNum(v) == RIsNum(v.n) /\ (\A i \in 1..Len(v.g) : RIsNum(v.g[i])) /\ (\A i \in 1..Len(v.h) : RIsNum(v.h[i]))
NearK(a, b, sc, k) == RIsNum(a) /\ RClose(a, b, k, sc)
Near(a, b, sc) == NearK(a, b, sc, K)
Iff(c, e) == IF c THEN {} ELSE {e}
Err(ps, what) == [props |-> ps, what |-> what]
EqS(s, t) == s = t \/ LET a == RParse(s) b == RParse(t) IN RIsNum(a) /\ RIsNum(b) /\ REq(a, b)

\* central moments 2..8 of a base variable
MomentsOf(b) ==
  TLCEval(IF b.kind = "c" THEN [i \in 1..7 |-> RParse(b.v[i])]
          ELSE LET s == RParse(b.s) IN [i \in 1..7 |-> IF i = 1 THEN RMul(s, s) ELSE RMul(RParse(b.v[i - 1]), RPow(s, i + 1))])
MomAll(m) == TLCEval([i \in 1..m |-> MomentsOf(bases[i])])

Agree(g, x, m, ps, what, k) ==
  LET v == View(g, m) IN
  Iff(NearK(v.n, x.n, x.ns, k), Err(ps, <<what, "mean">>)) \cup
  UNION {Iff(NearK(v.g[i], x.g[i], x.gs[i], k), Err(ps, <<what, "gradient", i>>)) : i \in 1..m} \cup
  UNION {Iff(NearK(v.h[p], x.h[p], x.hs[p], k), Err(ps, <<what, "hessian", PairOf[p]>>)) : p \in 1..NTri(m)}
Same(g, h, m, ps, what) ==
  Iff(EqS(g.n, h.n) /\ (\A i \in 1..m : EqS(IF i <= Len(g.g) THEN g.g[i] ELSE "0", IF i <= Len(h.g) THEN h.g[i] ELSE "0"))
      /\ (\A i \in 1..NTri(m) : EqS(IF i <= Len(g.h) THEN g.h[i] ELSE "0", IF i <= Len(h.h) THEN h.h[i] ELSE "0")),
      Err(ps, <<what, "value not transferred">>))
  \cup Iff(g.ind = h.ind /\ g.id = h.id, Err(ps \cup {"C05"}, <<what, "identity not transferred">>))
Ident(g, v, su, ids, ps, what) == Iff(IdentityOK2(v, su, ids, g.ind, g.id), Err(ps, <<what, "isindep/indepid", g.ind, g.id>>))

Changed(e) == {e.ch[j].r : j \in 1..Len(e.ch)}
NewReg(e, r) == LET j == CHOOSE j \in 1..Len(e.ch) : e.ch[j].r = r IN e.ch[j]
Result(e, t, x, su, m, ids, ps, what) ==
  LET g == NewReg(e, t)  v == View(g, m) IN
  Agree(g, x, m, ps, what, K) \cup (IF AllNum(v) THEN Ident(g, v, su, ids, {"C05"}, what) ELSE {})

Targets(e) ==
  CASE e.op \in {"new", "const", "bin", "bas", "neg", "plus", "un", "unb", "bi", "copy", "cpb", "m1", "m2", "fac"} -> {e.t}
    [] e.op = "swap" -> {e.t, e.a}
    [] e.op = "conv" -> IF e.t > 0 THEN {e.t} ELSE {}
    [] OTHER -> {}
FrameProps(e) == CASE e.op \in {"bin", "bas", "neg", "un", "unb", "bi"} -> {"C08"}
                   [] e.op = "mom" -> {"C09"}
                   [] e.op = "cov" -> {"C10"}
                   [] e.op = "conv" -> {"C20"}
                   [] e.op \in {"m1", "m2"} -> {"C12"}
                   [] e.op = "fac" -> {"C13"}
                   [] OTHER -> {"C08"}

\* d = <<first, second>> with scales; the coefficients of the arguments were
\* multiplied by c
MathChain(mu, d, c, x, m) ==
  LET s1(i) == RMul(c, d[1][i])  s2(i) == RMul(RMul(c, c), d[2][i]) IN
  Chain2(mu, RAbs(mu), <<s1(1)>>, <<s1(2)>>, <<<<s2(1)>>>>, <<<<s2(2)>>>>, <<x>>, m)
MathChain2(mu, d, c, x, y, m) ==
  LET D(k, i) == RMul(IF k <= 2 THEN c ELSE RMul(c, c), d[k][i]) IN
  Chain2(mu, RAbs(mu), <<D(1, 1), D(2, 1)>>, <<D(1, 2), D(2, 2)>>,
         <<<<D(3, 1), D(5, 1)>>, <<D(5, 1), D(4, 1)>>>>, <<<<D(3, 2), D(5, 2)>>, <<D(5, 2), D(4, 2)>>>>, <<x, y>>, m)

Judge(e) ==
  LET m0 == Len(bases)
      m  == IF e.op = "new" THEN m0 + 1 ELSE m0
      ids == [i \in 1..m |-> IF i > m0 THEN NewReg(e, e.t).id ELSE bases[i].id]
      V(r) == View(regs[r], m)
      X(r) == Exact2(V(r))
      p(s) == RParse(s)
      arg(r, c) == IF r = 0 THEN Const2(p(c), m) ELSE X(r)
      sp(r) == IF r = 0 THEN {} ELSE sup[r]
      \* argument moved to another mean
      At(r, x) == [X(r) EXCEPT !.n = p(x), !.ns = RAbs(p(x))]
      bX(b) == Base2(p(bases[b].n), b, m)
  IN
  CASE e.op = "new" ->
        LET g == NewReg(e, e.t) IN
        [sup |-> {m},
         bad |-> Agree(g, Base2(p(e.n), m, m), m, {"C08", "C18"}, "construction", K)
                 \cup Iff(g.ind /\ g.id > 0 /\ g.id \notin used, Err({"C05"}, <<"construction", "id", g.id>>))]
    [] e.op = "const" -> [sup |-> {}, bad |-> Result(e, e.t, Const2(p(e.n), m), {}, m, ids, {"C08"}, "constant")]
    [] e.op = "cpb" ->
         LET g == NewReg(e, e.t) IN
         [sup |-> {e.base}, bad |-> Agree(g, bX(e.base), m, {"C08", "C04"}, "copy of base", K)
                                    \cup Ident(g, View(g, m), {e.base}, ids, {"C05"}, "copy of base")]
    [] e.op = "bin" ->
         LET su == sp(e.a) \cup sp(e.b)
             x == Arith2(e.f, arg(e.a, IF e.a = 0 THEN e.c ELSE "0"), arg(e.b, IF e.b = 0 THEN e.c ELSE "0"), m, Eta) IN
         [sup |-> su, bad |-> Result(e, e.t, x, su, m, ids, {"C08"}, <<"operator", e.f>>)]
    [] e.op = "neg" ->
         [sup |-> sp(e.a), bad |-> Result(e, e.t, Un2(RNeg(V(e.a).n), -1, 0, X(e.a), m), sp(e.a), m, ids, {"C08"}, "negation")]
    [] e.op = "plus" -> [sup |-> sp(e.a), bad |-> Result(e, e.t, X(e.a), sp(e.a), m, ids, {"C08"}, "unary plus")]
    [] e.op = "un" ->
         [sup |-> sp(e.a), bad |-> Result(e, e.t, Un2(p(e.mu), p(e.d), p(e.dd), X(e.a), m), sp(e.a), m, ids, {"C08"}, "unary")]
    [] e.op = "unb" ->
         [sup |-> {e.base}, bad |-> Result(e, e.t, Un2(p(e.mu), p(e.d), p(e.dd), bX(e.base), m), {e.base}, m, ids, {"C08"}, "unary of base")]
    [] e.op \in {"bi", "bas"} ->
         LET su == sp(e.a) \cup sp(e.b)
             x == Bi2(p(e.mu), p(e.dx), p(e.dy), p(e.dxx), p(e.dyy), p(e.dxy), X(e.a), X(e.b), m) IN
         [sup |-> su, bad |-> Result(e, e.t, x, su, m, ids, {"C08"}, <<IF e.op = "bi" THEN "binary" ELSE "binary_assign", IF e.a = e.b THEN "same operands" ELSE "distinct operands">>)]
    [] e.op = "copy" -> [sup |-> sp(e.a), bad |-> Same(NewReg(e, e.t), regs[e.a], m, {"C08", "C04"}, "copy")]
    [] e.op = "swap" ->
         [sup |-> sp(e.a), sup2 |-> sp(e.t),
          bad |-> Same(NewReg(e, e.t), regs[e.a], m, {"C08", "C04"}, "swap") \cup Same(NewReg(e, e.a), regs[e.t], m, {"C08", "C04"}, "swap")]
    [] e.op = "mom" ->
         LET v == V(e.a)  M == MomAll(m)
             mo == TLCEval(Moments(v, M))  sc == TLCEval(MomentScales(v, M))
             o == TLCEval([i \in 1..4 |-> p(e.m[i])])
             okm(i) == NearK(o[i], mo[i], sc[i], K - 4)
             n == IF e.est THEN RSub(v.n, mo[1]) ELSE RAdd(v.n, mo[1])
             ns == RAdd(RAbs(v.n), sc[1])
             okn(q) == NearK(q, n, ns, K - 4)
             \* s = sqrt(m2): a variance of zero or less up to rounding leaves s unspecified
             small == \A i \in 1..4 : RIsNum(o[i])
             pos2 == small /\ RLt(RMul(RPow(2, 12 - K), sc[2]), mo[2])
             oks(q) == ~pos2 \/ (RIsNum(q) /\ RLe(0, q) /\ NearK(RMul(q, q), o[2], sc[2], K - 4))
             s == p(e.s)  sk == p(e.sk)  ku == p(e.ku)
             r == RDiv(sc[2], mo[2]) IN
         [sup |-> {},
          bad |-> UNION {Iff(okm(i), Err({"C09"} \cup IF i = 2 THEN {"C10"} ELSE {}, <<"moment", i>>)) : i \in 1..4}
                  \cup Iff(okn(p(e.n)) /\ okn(p(e.nom)), Err({"C09"}, <<"n">>))
                  \cup Iff(oks(s) /\ oks(p(e.sdev)), Err({"C09"}, <<"s">>))
                  \cup Iff(NearK(p(e.var), mo[2], sc[2], K - 4), Err({"C10"}, <<"var">>))
                  \cup (IF ~pos2 \/ ~RIsNum(s) THEN {} ELSE
                        Iff(RIsNum(sk) /\ NearK(RMul(sk, RMul(s, o[2])), o[3], RAdd(sc[3], RMul(RAbs(o[3]), r)), K - 6), Err({"C09"}, <<"skew">>))
                        \cup Iff(RIsNum(ku) /\ NearK(RMul(ku, RMul(o[2], o[2])), o[4], RAdd(sc[4], RMul(RAbs(o[4]), r)), K - 6), Err({"C09"}, <<"kurt">>)))]
    [] e.op = "cov" ->
         LET M == MomAll(m)  x == V(e.a)  y == V(e.b)
             c == TLCEval(Cov2(x, y, M))  cs == TLCEval(Cov2Scale(x, y, M))
             o == p(e.v)  w == p(e.w)  va == p(e.va)  vb == p(e.vb)  sa == p(e.sa)  sb == p(e.sb)  r == p(e.c)
             big(z, sc) == RIsNum(z) /\ RLt(RMul(RPow(2, 12 - K), sc), z)
             xs == Cov2Scale(x, x, M)  ys == Cov2Scale(y, y, M) IN
         [sup |-> {}, bad |->
            Iff(NearK(o, c, cs, K - 4) /\ NearK(w, c, cs, K - 4), Err({"C10"}, <<"cov">>))
            \cup Iff(e.a # e.b \/ NearK(va, c, cs, K - 4), Err({"C10"}, <<"var">>))
            \cup (IF big(va, xs) /\ big(vb, ys) /\ RIsNum(sa) /\ RIsNum(sb) /\ RIsNum(o) THEN
                  LET d == RMul(sa, sb)
                      f == RAdd(RDiv(xs, va), RDiv(ys, vb)) IN
                  Iff(RIsNum(r) /\ NearK(RMul(r, d), o, RAdd(cs, RMul(RAbs(o), f)), K - 5), Err({"C10"}, <<"corr">>))
                  ELSE {})]
    [] e.op = "cfar" -> LET w == FarWrong(e, K - 5) IN [sup |-> {}, bad |-> Iff(w = "", Err({"C10"}, <<"extreme standard deviations", w>>))]
    [] e.op = "gh" ->
         LET y == V(e.y)  x == V(e.x)  z == V(e.z)
             multi(r) == sup[r] = {} \/ Cardinality(Dep2(V(r))) >= 2
             single(r) == Cardinality(sup[r]) = 1 /\ \A b \in sup[r] : ~REq(V(r).g[b], 0)
             bOf(r) == CHOOSE b \in sup[r] : TRUE
             same == EqS(regs[e.x].g[bOf(e.x)], regs[e.z].g[bOf(e.x)]) /\ EqS(regs[e.x].h[Tri(bOf(e.x), bOf(e.x))], regs[e.z].h[Tri(bOf(e.x), bOf(e.x))])
             far(a, b) == ~NearK(a, b, RMax(RAbs(a), RAbs(b)), 10)
             g == p(e.g)  h == p(e.h) IN
         [sup |-> {}, bad |->
            (IF multi(e.x) THEN Iff(e.gthr = "invalid_argument", Err({"C08"}, <<"grad must throw", e.gthr>>))
             ELSE IF single(e.x) THEN
               LET q == Grad2(y, x, bOf(e.x)) IN Iff(e.gthr = "" /\ NearK(g, q, RAbs(q), K - 2), Err({"C08"}, <<"grad", e.gthr>>))
             ELSE {})
            \cup
            (IF multi(e.x) \/ multi(e.z) THEN Iff(e.hthr = "invalid_argument", Err({"C08"}, <<"hess must throw", e.hthr>>))
             ELSE IF ~(single(e.x) /\ single(e.z)) THEN {}
             ELSE IF bOf(e.x) # bOf(e.z) THEN
               LET q == HessOff(y, x, bOf(e.x), z, bOf(e.z)) IN Iff(e.hthr = "" /\ NearK(h, q, RAbs(q), K - 3), Err({"C08"}, <<"hess", e.hthr>>))
             ELSE IF e.x = e.z \/ same THEN
               (IF e.x # e.z THEN {} ELSE
                LET q == HessDiag(y, x, bOf(e.x))  qs == HessDiagScale(y, x, bOf(e.x)) IN
                Iff(e.hthr = "" /\ NearK(h, q, qs, K - 3), Err({"C08"}, <<"hess", e.hthr>>)))
             ELSE IF far(x.g[bOf(e.x)], z.g[bOf(e.x)]) \/ far(x.h[Tri(bOf(e.x), bOf(e.x))], z.h[Tri(bOf(e.x), bOf(e.x))]) THEN
               Iff(e.hthr = "invalid_argument", Err({"C08"}, <<"hess of different dependencies must throw", e.hthr>>))
             ELSE {})]
    [] e.op = "conv" ->
         LET v == V(e.a)  M == MomAll(m)  w == <<"conversion to", e.to>>
             mo == TLCEval(Moments(v, M))  sc == TLCEval(MomentScales(v, M))
             n == IF e.est THEN RSub(v.n, mo[1]) ELSE RAdd(v.n, mo[1])
             su == sp(e.a) \cup sp(e.b)
             x == Arith2("mul", X(e.a), X(e.b), m, 0)
             zv == View(e.z, m) IN
         [sup |-> su, bad |->
            Agree(e.o, X(e.a), m, {"C20"}, w, e.k - 3)
            \cup Iff(e.o.ind = regs[e.a].ind /\ e.o.id = regs[e.a].id, Err({"C20", "C05"}, <<w, "identity">>))
            \cup UNION {Iff(NearK(p(e.m[i]), mo[i], sc[i], e.k - 5), Err({"C20"}, <<w, "moment", i>>)) : i \in 1..4}
            \cup Iff(NearK(p(e.nn), n, RAdd(RAbs(v.n), sc[1]), e.k - 4), Err({"C20"}, <<w, "n">>))
            \cup Iff(NearK(p(e.cov), Cov2(v, V(e.b), M), Cov2Scale(v, V(e.b), M), e.k - 5), Err({"C20"}, <<w, "cov">>))
            \cup Agree(e.z, x, m, {"C20"}, <<w, "and back">>, e.k - 4)
            \cup (IF AllNum(zv) THEN Ident(e.z, zv, su, ids, {"C20", "C05"}, w) ELSE {})
            \cup (IF e.t = 0 THEN {} ELSE Same(NewReg(e, e.t), e.z, m, {"C20", "C08"}, "assignment"))]
    [] e.op = "m1" ->
         LET mu == p(e.v)  d == D1(e.f, p(e.x), mu, [i \in 1..Len(e.w) |-> p(e.w[i])]) IN
         [sup |-> sp(e.a), bad |-> Result(e, e.t, MathChain(mu, d, p(e.sc), At(e.a, e.x), m), sp(e.a), m, ids, {"C12"}, e.f)]
    [] e.op = "m2" ->
         LET mu == p(e.v)  d == D2(e.f, p(e.x), p(e.y), mu, [i \in 1..Len(e.w) |-> p(e.w[i])])
             y == IF e.b = 0 THEN Const2(p(e.y), m) ELSE At(e.b, e.y)
             su == sp(e.a) \cup sp(e.b) IN
         [sup |-> su, bad |-> Result(e, e.t, MathChain2(mu, d, p(e.sc), At(e.a, e.x), y, m), su, m, ids, {"C12"}, e.f)]
    [] e.op = "class" ->
         LET v == View(e.o, m) IN
         [sup |-> {}, bad |->
            Iff(e.fin \/ ~AllNum(v), Err({"C12"}, <<"isfinite of a finite variable">>))
            \cup Iff(~e.fin \/ (RIsNum(v.n) /\ \A i \in 1..m : RIsNum(v.g[i])), Err({"C12"}, <<"isfinite of a variable that is not finite">>))
            \cup Iff(~e.nor \/ (e.nmu /\ e.ngrad /\ e.nhess), Err({"C12"}, <<"isnormal of a variable that is not normal">>))
            \cup Iff(e.nor \/ ~(e.nmu /\ e.ngrad /\ e.nhess /\ e.noff), Err({"C12"}, <<"isnormal of a normal variable">>))]
    [] e.op = "fac" ->
         LET S == p(e.S)  px == p(e.x)  py == IF e.two THEN p(e.y) ELSE RDiv(1, S)  c == e.c  h == p(e.step)
             D(a, b) == PD(c, S, a, b, px, py)
             DA(a, b) == PDAbs(c, S, a, b, px, py)
             hx == RAdd(px, h)  hy == RAdd(py, h)
             Q(a, b) == QScale(c, S, a, b, px, py, h)
             \* derivative (a+1, b), (a, b+1) as forward difference
             FX(a, b) == RDiv(RSub(PD(c, S, a, b, hx, py), D(a, b)), h)
             FY(a, b) == RDiv(RSub(PD(c, S, a, b, px, hy), D(a, b)), h)
             four(q) == RMul(4, q)
             d == CASE e.kind = 0 -> <<D(1, 0), D(0, 1), D(2, 0), D(0, 2), D(1, 1)>>
                    [] e.kind = 1 -> <<D(1, 0), D(0, 1), FX(1, 0), FY(0, 1), FY(1, 0)>>
                    [] e.kind = 2 -> <<CenX(c, S, px, py, h), CenY(c, S, px, py, h), CenXX(c, S, px, py, h), CenYY(c, S, px, py, h), CenXY(c, S, px, py, h)>>
             ds == CASE e.kind = 0 -> <<DA(1, 0), DA(0, 1), DA(2, 0), DA(0, 2), DA(1, 1)>>
                     [] e.kind = 1 -> <<DA(1, 0), DA(0, 1), four(RDiv(Q(1, 0), h)), four(RDiv(Q(0, 1), h)), four(RDiv(Q(1, 0), h))>>
                     [] e.kind = 2 -> LET f == four(RDiv(Q(0, 0), h))  s == four(RDiv(f, h)) IN <<f, f, s, s, RMul(2, s)>>
             su == sp(e.a) \cup sp(e.b)
             x == IF e.two THEN MathChain2(D(0, 0), [i \in 1..5 |-> <<d[i], ds[i]>>], 1, At(e.a, e.x), At(e.b, e.y), m)
                           ELSE MathChain(D(0, 0), <<<<d[1], ds[1]>>, <<d[3], ds[3]>>>>, 1, At(e.a, e.x), m) IN
         [sup |-> su, bad |-> Result(e, e.t, [x EXCEPT !.ns = DA(0, 0)], su, m, ids, {"C13"}, <<"factory", e.kind, IF e.two THEN 2 ELSE 1>>)]
    [] e.op = "ids" ->
         [sup |-> {}, bad |->
            Iff(\A j \in 1..Len(e.v) : e.v[j] > 0 /\ e.v[j] \notin used /\ \A i \in 1..(j-1) : e.v[i] # e.v[j], Err({"C05"}, <<"ids", e.v>>))]
    [] e.op = "crash" -> [sup |-> {}, bad |-> {Err(Props, <<"crash", e.how, e.in>>)}]

Step ==
  /\ pos < Len(Histories[tr].ev)
  /\ LET e == Histories[tr].ev[pos + 1]
         j == Judge(e)  dead == e.op = "crash" IN
     /\ pos' = pos + 1
     /\ tr' = tr
     /\ bad' = j.bad \cup {Err(FrameProps(e) \cup {"C04"}, <<e.op, "changed a bystander", r>>) : r \in IF dead THEN {} ELSE Changed(e) \ Targets(e)}
     /\ regs' = IF dead THEN regs ELSE [r \in Regs |-> IF r \in Changed(e) THEN NewReg(e, r) ELSE regs[r]]
     /\ sup' = IF dead THEN sup ELSE
               [r \in Regs |-> IF r \notin Targets(e) THEN sup[r]
                               ELSE IF e.op = "swap" /\ r = e.a THEN j.sup2 ELSE j.sup]
     /\ bases' = IF e.op = "new" THEN Append(bases, [n |-> e.n, kind |-> e.kind, s |-> IF e.kind = "s" THEN e.s ELSE "0", v |-> e.v, id |-> NewReg(e, e.t).id]) ELSE bases
     /\ used' = IF e.op = "new" THEN used \cup {NewReg(e, e.t).id}
                ELSE IF e.op = "ids" THEN used \cup {e.v[i] : i \in 1..Len(e.v)} ELSE used
Next == Step

Conforms == \A b \in bad : b.props \cap Props = {}
Brief == [history |-> tr, pos |-> pos, bad |-> {b \in bad : b.props \cap Props # {}},
          op |-> IF pos > 0 THEN Histories[tr].ev[pos].op ELSE "init"]
=============================================================================
