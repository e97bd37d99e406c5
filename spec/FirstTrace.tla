----------------------------- MODULE FirstTrace -----------------------------
(***************************************************************************)
(* Histories validation of UReal histories recorded by harness/h1.cpp.         *)
(*                                                                         *)
(* Each line of the trace file is one history over R registers; every      *)
(* event lists its arguments and, under "ch", the full observable state of *)
(* each register whose observable state changed (the others did not).      *)
(* One TLC step consumes one event: it computes with module First what the *)
(* event's action allows, compares, and takes the logged state as next     *)
(* state, so that each step is judged on its own and a history is checked  *)
(* to its end.  Every disagreement is recorded in `bad` with the set of    *)
(* properties it contradicts; the invariant looks at the properties in     *)
(* Props.  All histories are initial states, so TLC checks them in         *)
(* parallel.                                                               *)
(***************************************************************************)
EXTENDS First, Extreme, MathFn, Poly, TLC, Json, IOUtils
CONSTANT Props

Histories == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES tr,     \* which history
          pos,    \* events consumed
          regs,   \* logged observable state of each register (raw)
          sup,    \* base variables that entered each register's computation
          bases,  \* logged base variables, in order of creation
          used,   \* ids seen so far
          bad
vars == <<tr, pos, regs, sup, bases, used, bad>>

Regs == 1..Histories[tr].R
K == Histories[tr].k                     \* tolerance 2^-K
NoReg == [n |-> "0", C |-> << >>, s |-> "0", ind |-> TRUE, id |-> 0]

Init ==
  /\ tr \in 1..Len(Histories)
  /\ pos = 0
  /\ regs = [r \in Regs |-> NoReg]
  /\ sup = [r \in Regs |-> {}]
  /\ bases = << >>
  /\ used = {}
  /\ bad = {}

-----------------------------------------------------------------------------
\* parsed view of a logged register, over the first m base variables
View(g, m) == TLCEval([n |-> RParse(g.n), C |-> [i \in 1..m |-> IF i <= Len(g.C) THEN RParse(g.C[i]) ELSE 0]])
AllNum(v) == RIsNum(v.n) /\ \A i \in 1..Len(v.C) : RIsNum(v.C[i])
Near(a, b, sc) == RIsNum(a) /\ RClose(a, b, K, sc)
NearK(a, b, sc, k) == RIsNum(a) /\ RClose(a, b, k, sc)

Iff(c, e) == IF c THEN {} ELSE {e}
\* a disagreement: properties, what
Err(ps, what) == [props |-> ps, what |-> what]

\* the new value of register r agrees with the expected value x
Agree(g, x, m, ps, what) ==
  LET v == View(g, m) IN
  Iff(Near(v.n, x.n, x.ns), Err(ps, <<what, "mean">>)) \cup
  UNION {Iff(Near(v.C[i], x.C[i], x.S[i]), Err(ps, <<what, "coefficient on base", i>>)) : i \in 1..m}
\* exactly equal (copies)
Same(g, h, m, ps, what) ==
  LET v == View(g, m)  w == View(h, m) IN
  IF g.n = h.n /\ \A i \in 1..m : (v.C[i] = w.C[i] \/ (RIsNum(v.C[i]) /\ RIsNum(w.C[i]) /\ REq(v.C[i], w.C[i])))
  THEN {} ELSE {Err(ps, <<what, "value not transferred">>)}
SameId(g, h, ps, what) == Iff(g.ind = h.ind /\ g.id = h.id, Err(ps, <<what, "identity not transferred">>))
\* the standard deviation read is the one of the coefficients
Spread(g, v, sg, ps, what) ==
  LET s == RParse(g.s)  x == Var(v, sg) IN
  Iff(RIsNum(s) /\ RLe(0, s) /\ NearK(RMul(s, s), x, x, K - 3), Err(ps, <<what, "s() does not match coefficients">>))
Ident(g, v, su, ids, sg, ps, what) ==
  Iff(IdentityOK(v, su, ids, sg, g.ind, g.id), Err(ps, <<what, "isindep/indepid", g.ind, g.id>>))
-----------------------------------------------------------------------------
\* One event.  What(e) is [regs, sup, bases, used, bad] after the event.
Changed(e) == {e.ch[j].r : j \in 1..Len(e.ch)}
NewReg(e, r) == LET j == CHOOSE j \in 1..Len(e.ch) : e.ch[j].r = r IN e.ch[j]

\* an operation with one target t, expected value x (with scales), variables
\* involved su, properties ps for the value
Result(e, t, x, su, m, sg, ids, ps, what) ==
  LET g == NewReg(e, t)  v == View(g, m) IN
  Agree(g, x, m, ps, what) \cup
  (IF AllNum(v) THEN Spread(g, v, sg, ps \cup {"C03"}, what) \cup Ident(g, v, su, ids, sg, {"C05"}, what) ELSE {})

Copied(e, t, g0, m, ps, what) ==
  LET g == NewReg(e, t) IN
  Same(g, g0, m, ps, what) \cup SameId(g, g0, ps \cup {"C05"}, what)
    \cup Iff(g.s = g0.s \/ LET a == RParse(g.s) b == RParse(g0.s) IN RIsNum(a) /\ RIsNum(b) /\ Near(a, b, RAbs(b)),
             Err(ps \cup {"C03"}, <<what, "s() not transferred">>))

\* only the registers in ts may have changed
Frame(e, ts, what) == {Err({"C04"}, <<what, "changed register", r>>) : r \in Changed(e) \ ts}

Targets(e) ==
  CASE e.op \in {"new", "const", "bin", "expr", "ip", "bas", "neg", "plus", "un", "bi", "nary",
                 "copy", "chnom", "cpb", "m1", "m2", "fac", "wip", "wbin"} -> {e.t}
    [] e.op \in {"swap", "move"} -> {e.t, e.a}
    [] e.op = "conv" -> IF e.t > 0 THEN {e.t} ELSE {}
    [] OTHER -> {}

\* properties contradicted by a changed bystander
FrameProps(e) == CASE e.op \in {"ip", "bas", "wip"} -> {"C04", "C02"}
                   [] e.op = "grad" -> {"C04", "C07"}
                   [] e.op \in {"reads", "cov", "corr"} -> {"C04", "C03"}
                   [] e.op = "conv" -> {"C04", "C20"}
                   [] OTHER -> {"C04"}

Judge(e) ==
  LET m0 == Len(bases)
      newb == e.op \in {"new", "newb"}
      m  == IF newb THEN m0 + 1 ELSE m0
      sg == TLCEval([i \in 1..m |-> IF i > m0 THEN RParse(e.s) ELSE RParse(bases[i].s)])
      ids == [i \in 1..m |-> IF i > m0 THEN (IF e.op = "new" THEN NewReg(e, e.t).id ELSE e.id) ELSE bases[i].id]
      V(r) == View(regs[r], m)
      X(r) == Exact(V(r))
      arg(r, c) == IF r = 0 THEN Const(RParse(c), m) ELSE X(r)
      sp(r) == IF r = 0 THEN {} ELSE sup[r]
      baseX(b) == [n |-> RParse(bases[b].n), ns |-> RAbs(RParse(bases[b].n)),
                   C |-> [i \in 1..m |-> IF i = b THEN RMul(sg[b], sg[b]) ELSE 0],
                   S |-> [i \in 1..m |-> IF i = b THEN RMul(sg[b], sg[b]) ELSE 0]]
  IN
  CASE e.op = "new" ->
        LET g == NewReg(e, e.t)
            x == [n |-> RParse(e.n), ns |-> 0, C |-> [i \in 1..m |-> IF i = m THEN RMul(sg[m], sg[m]) ELSE 0],
                  S |-> [i \in 1..m |-> IF i = m THEN RMul(sg[m], sg[m]) ELSE 0]] IN
        [sup |-> {m},
         bad |-> Agree(g, x, m, {"C01", "C05"}, "construction") \cup Spread(g, View(g, m), sg, {"C01", "C03"}, "construction")
                 \cup (IF REq(sg[m], 0) THEN {} ELSE
                       Iff(g.ind /\ g.id > 0 /\ g.id \notin used, Err({"C05"}, <<"construction", "id", g.id>>)))]
    [] e.op = "newb" ->
         [sup |-> {}, bad |-> IF REq(sg[m], 0) THEN {} ELSE Iff(e.id > 0 /\ e.id \notin used, Err({"C05"}, <<"construction", "id", e.id>>))]
    [] e.op = "const" ->
         [sup |-> {}, bad |-> Result(e, e.t, Const(RParse(e.n), m), {}, m, sg, ids, {"C01"}, "constant")]
    [] e.op = "bin" ->
         LET su == sp(e.a) \cup sp(e.b)
             x == Arith(e.f, arg(e.a, IF e.a = 0 THEN e.c ELSE "0"), arg(e.b, IF e.b = 0 THEN e.c ELSE "0"), m) IN
         [sup |-> su, bad |-> Result(e, e.t, x, su, m, sg, ids, {"C01"}, <<"operator", e.f>>)]
    [] e.op = "expr" ->
         LET su == sp(e.a) \cup sp(e.b) \cup sp(e.c)
             x == IF e.left THEN Arith(e.h, Arith(e.f, X(e.a), X(e.b), m), X(e.c), m)
                            ELSE Arith(e.f, X(e.a), Arith(e.h, X(e.b), X(e.c), m), m) IN
         [sup |-> su, bad |-> Result(e, e.t, x, su, m, sg, ids, {"C01"}, <<"expression", e.f, e.h>>)]
    [] e.op = "ip" ->
         LET su == sp(e.t) \cup sp(e.b)
             x == Arith(e.f, X(e.t), arg(e.b, IF e.b = 0 THEN e.c ELSE "0"), m) IN
         [sup |-> su, bad |-> Result(e, e.t, x, su, m, sg, ids, {"C02"}, <<"in-place", e.f, IF e.b = e.t THEN "self" ELSE "other">>)]
    [] e.op = "bas" ->
         LET su == sp(e.t) \cup sp(e.b)
             x == ChainE(RParse(e.mu), <<RParse(e.dt), RParse(e.dx)>>, <<X(e.t), X(e.b)>>, m) IN
         [sup |-> su, bad |-> Result(e, e.t, x, su, m, sg, ids, {"C02"}, <<"binary_assign", IF e.b = e.t THEN "self" ELSE "other">>)
                              \cup Iff(e.ret, Err({"C02"}, <<"binary_assign", "return value">>))]
    [] e.op = "neg" ->
         [sup |-> sp(e.a), bad |-> Result(e, e.t, ChainE(RNeg(X(e.a).n), <<-1>>, <<X(e.a)>>, m), sp(e.a), m, sg, ids, {"C01"}, "negation")]
    [] e.op = "plus" ->
         [sup |-> sp(e.a), bad |-> Result(e, e.t, X(e.a), sp(e.a), m, sg, ids, {"C01"}, "unary plus")]
    [] e.op = "un" ->
         [sup |-> sp(e.a), bad |-> Result(e, e.t, ChainE(RParse(e.mu), <<RParse(e.d)>>, <<X(e.a)>>, m), sp(e.a), m, sg, ids, {"C01"}, "unary")]
    [] e.op = "bi" ->
         LET su == sp(e.a) \cup sp(e.b)
             x == ChainE(RParse(e.mu), <<RParse(e.dx), RParse(e.dy)>>, <<X(e.a), X(e.b)>>, m) IN
         [sup |-> su, bad |-> Result(e, e.t, x, su, m, sg, ids, {"C01"}, "binary")]
    [] e.op = "nary" ->
         LET n == Len(e.x)
             su == UNION {sup[e.x[j]] : j \in 1..n}
             x == ChainE(RParse(e.mu), [j \in 1..n |-> RParse(e.d[j])], [j \in 1..n |-> X(e.x[j])], m) IN
         [sup |-> su, bad |-> Result(e, e.t, x, su, m, sg, ids, {"C01"}, "nary")]
    [] e.op = "wip" ->
         LET su == sp(e.t) \cup {e.base} IN
         [sup |-> su, bad |-> Result(e, e.t, Arith(e.f, X(e.t), baseX(e.base), m), su, m, sg, ids, {"C02"}, <<"in-place", e.f, "fresh">>)]
    [] e.op = "wbin" ->
         LET su == sp(e.t) \cup {e.base} IN
         [sup |-> su, bad |-> Result(e, e.t, Arith(e.f, baseX(e.base), X(e.t), m), su, m, sg, ids, {"C01"}, <<"operator", e.f, "fresh">>)]
    [] e.op = "copy" -> [sup |-> sp(e.a), bad |-> Copied(e, e.t, regs[e.a], m, {"C04"}, "copy")]
    [] e.op = "cpb" ->
         LET g == NewReg(e, e.t) IN
         [sup |-> {e.base}, bad |-> Agree(g, baseX(e.base), m, {"C04"}, "copy of base")
                                    \cup Ident(g, View(g, m), {e.base}, ids, sg, {"C04", "C05"}, "copy of base")]
    [] e.op = "swap" -> [sup |-> sp(e.a), sup2 |-> sp(e.t),
                         bad |-> IF e.a = e.t THEN {} ELSE
                                 Copied([e EXCEPT !.ch = @], e.t, regs[e.a], m, {"C04"}, "swap")]
    [] e.op = "move" -> [sup |-> sp(e.a), sup2 |-> {}, bad |-> Copied(e, e.t, regs[e.a], m, {"C04"}, "move")]
    [] e.op = "chnom" ->
         LET g == NewReg(e, e.t) IN
         [sup |-> sp(e.a),
          bad |-> Copied(e, e.t, [regs[e.a] EXCEPT !.n = g.n], m, {"C04"}, "change_nom")
                  \cup Iff(LET a == RParse(g.n) IN RIsNum(a) /\ REq(a, RParse(e.c)), Err({"C04"}, <<"change_nom", "mean">>))]
    [] e.op = "reads" ->
         LET v == V(e.a)  s2 == Var(v, sg)
             ok(kind, o) == CASE kind = "n" -> RIsNum(o) /\ REq(o, v.n)
                              [] kind = "s" -> RIsNum(o) /\ RLe(0, o) /\ NearK(RMul(o, o), s2, s2, K - 3)
                              [] kind = "var" -> NearK(o, s2, s2, K - 3) IN
         [sup |-> {}, bad |-> UNION {Iff(ok(e.k[j], RParse(e.v[j])), Err({"C03"}, <<"read", e.k[j], j>>)) : j \in 1..Len(e.k)}]
    [] e.op = "cov" ->
         LET x == Cov(V(e.a), V(e.b), sg)  sc == CovScale(V(e.a), V(e.b), sg) IN
         [sup |-> {}, bad |-> Iff(NearK(RParse(e.v), x, sc, K - 3) /\ NearK(RParse(e.w), x, sc, K - 3), Err({"C03", "C01"}, <<"cov">>))]
    [] e.op = "corr" ->
         LET x == Cov(V(e.a), V(e.b), sg)  sc == CovScale(V(e.a), V(e.b), sg)
             d == RMul(RParse(regs[e.a].s), RParse(regs[e.b].s)) IN
         [sup |-> {}, bad |-> Iff(RIsNum(RParse(e.v)) /\ NearK(RMul(RParse(e.v), d), x, RMax(sc, d), K - 3), Err({"C03"}, <<"corr">>))]
    [] e.op = "grad" ->
         LET isb == e.base > 0
             xv == IF isb THEN baseX(e.base) ELSE V(e.x)
             xs == IF isb THEN {e.base} ELSE sup[e.x]
             z == \E i \in xs : REq(sg[i], 0)
             o == RParse(e.v) IN
         [sup |-> {}, bad |->
            IF z THEN {}
            ELSE IF GradMustThrow(xv, xs) THEN Iff(e.thr = "invalid_argument", Err({"C07"}, <<"grad", "must throw", e.thr>>))
            ELSE IF GradDefined(xv, xs) THEN
              LET q == Grad(V(e.y), xv, xs) IN
              Iff(e.thr = "" /\ NearK(o, q, RAbs(q), K - 2), Err({"C07"}, <<"grad", e.thr>>))
            ELSE {}]
    [] e.op = "cfar" -> LET w == FarWrong(e, K - 4) IN [sup |-> {}, bad |-> Iff(w = "", Err({"C03"}, <<"extreme standard deviations", w>>))]
    [] e.op = "gfar" ->
         LET o == RParse(e.v)  q == RParse(e.d) IN
         [sup |-> {}, bad |-> Iff(e.thr = "" /\ NearK(o, q, RAbs(q), K - 2), Err({"C07"}, <<"grad", "extreme standard deviation", e.thr>>))]
    [] e.op = "thr" -> [sup |-> {}, bad |-> Iff(e.thr = "invalid_argument", Err({"C18"}, <<"negative standard deviation accepted">>))]
    [] e.op = "ids" ->
         [sup |-> {}, bad |->
            Iff(\A j \in 1..Len(e.v) : e.v[j] > 0 /\ e.v[j] \notin used /\ \A i \in 1..(j-1) : e.v[i] # e.v[j],
                Err({"C05"}, <<"ids", e.v>>))]
    [] e.op = "conv" ->
         LET v == V(e.a)
             o == [n |-> RParse(e.n), C |-> [i \in 1..m |-> RParse(e.C[i])]]
             s2 == Var(v, sg)
             so == RParse(e.s)  so2 == RParse(e.s2)
             cx == Cov(V(e.a), V(e.b), sg)  cs == CovScale(V(e.a), V(e.b), sg)
             okS(q) == RIsNum(q) /\ RLe(0, q) /\ NearK(RMul(q, q), s2, s2, e.k - 4)
             su == IF e.t > 0 THEN sp(e.a) \cup sp(e.b) ELSE {}
             w == "conversion"
             \* back-converted sum: rounding of both types
             x == Arith("add", X(e.a), X(e.b), m) IN
         [sup |-> su, bad |->
            Iff(NearK(o.n, v.n, RAbs(v.n), e.k), Err({"C20"}, <<w, "mean">>))
            \cup UNION {Iff(NearK(o.C[i], v.C[i], RAbs(v.C[i]), e.k), Err({"C20"}, <<w, "coefficient on base", i>>)) : i \in 1..m}
            \cup Iff(okS(so) /\ okS(so2), Err({"C20", "C03"}, <<w, "s">>))
            \cup Iff(NearK(RParse(e.cov), cx, cs, e.k - 4), Err({"C20"}, <<w, "cov">>))
            \cup Iff(e.ind = regs[e.a].ind /\ e.id = regs[e.a].id, Err({"C20", "C05"}, <<w, "identity">>))
            \cup (IF e.t = 0 THEN {} ELSE
                  LET g == NewReg(e, e.t)  gv == View(g, m) IN
                  Iff(NearK(gv.n, x.n, x.ns, e.k - 2), Err({"C20"}, <<w, "mean of sum in other type">>))
                  \cup UNION {Iff(NearK(gv.C[i], x.C[i], x.S[i], e.k - 3), Err({"C20"}, <<w, "coefficient of sum in other type", i>>)) : i \in 1..m}
                  \cup (IF AllNum(gv) THEN Spread(g, gv, sg, {"C20", "C03"}, w) \cup Ident(g, gv, su, ids, sg, {"C20", "C05"}, w) ELSE {}))]
    [] e.op = "m1" ->
         LET wv == [i \in 1..Len(e.w) |-> RParse(e.w[i])]
             mu == RParse(e.v)  d == D1(e.f, RParse(e.x), mu, wv)[1]
             sc == RParse(e.sc)
             x == Chain(mu, RAbs(mu), <<RMul(sc, d[1])>>, <<RMul(sc, d[2])>>, <<X(e.a)>>, m) IN
         [sup |-> sp(e.a), bad |-> Result(e, e.t, x, sp(e.a), m, sg, ids, {"C11"}, <<e.f>>)]
    [] e.op = "m2" ->
         LET wv == [i \in 1..Len(e.w) |-> RParse(e.w[i])]
             mu == RParse(e.v)  d == D2(e.f, RParse(e.x), RParse(e.y), mu, wv)
             y == IF e.b = 0 THEN Const(RParse(e.y), m) ELSE X(e.b)
             su == sp(e.a) \cup sp(e.b)
             sc == RParse(e.sc)  \* the uncertainty of the arguments was scaled by sc
             x == Chain(mu, RAbs(mu), <<RMul(sc, d[1][1]), RMul(sc, d[2][1])>>, <<RMul(sc, d[1][2]), RMul(sc, d[2][2])>>, <<X(e.a), y>>, m) IN
         [sup |-> su, bad |-> Result(e, e.t, x, su, m, sg, ids, {"C11"}, <<e.f>>)]
    [] e.op = "class" ->
         LET n == RParse(e.n)  s == RParse(e.s) IN
         [sup |-> {}, bad |-> Iff(e.fin = (RIsNum(n) /\ RIsNum(s)), Err({"C11"}, <<"isfinite">>))
                              \cup Iff(e.nor = (e.nn /\ e.ns), Err({"C11"}, <<"isnormal">>))]
    [] e.op = "fac" ->
         LET px == RParse(e.x)  py == IF e.two THEN RParse(e.y) ELSE 1
             S == RParse(e.S)  h == RParse(e.step)
             \* a function of one argument is the polynomial at y = 1/S
             yy == IF e.two THEN py ELSE RDiv(1, S)
             f == P(e.c, S, px, yy)  fs == PDAbs(e.c, S, 0, 0, px, yy)
             dx == IF e.st = -1 THEN PD(e.c, S, 1, 0, px, yy) ELSE FwdX(e.c, S, px, yy, h)
             dy == IF e.st = -1 THEN PD(e.c, S, 0, 1, px, yy) ELSE FwdY(e.c, S, px, yy, h)
             qs == RDiv(QScale(e.c, S, 0, 0, px, yy, h), RMul(h, RFrac(1, 4)))
             dxs == IF e.st = -1 THEN PDAbs(e.c, S, 1, 0, px, yy) ELSE qs
             dys == IF e.st = -1 THEN PDAbs(e.c, S, 0, 1, px, yy) ELSE qs
             su == sp(e.a) \cup sp(e.b)
             x == IF e.two THEN Chain(f, fs, <<dx, dy>>, <<dxs, dys>>, <<X(e.a), X(e.b)>>, m)
                           ELSE Chain(f, fs, <<dx>>, <<dxs>>, <<X(e.a)>>, m) IN
         [sup |-> su, bad |-> Result(e, e.t, x, su, m, sg, ids, {"C13"}, <<"factory">>)]
    [] e.op = "crash" -> [sup |-> {}, bad |-> {Err(Props, <<"crash", e.how, e.in>>)}]

\* second half of a swap/move
Judge2(e) ==
  CASE e.op = "swap" /\ e.a # e.t -> Copied(e, e.a, regs[e.t], Len(bases), {"C04"}, "swap")
    [] e.op = "move" ->
         LET g == NewReg(e, e.a)  c == Const(RParse(e.c), Len(bases)) IN
         Agree(g, c, Len(bases), {"C04"}, "assignment of a constant after a move")
    [] OTHER -> {}

\* swap and move list both registers in e.ch unless one kept its value
Complete(e) == IF e.op = "swap" /\ e.a \notin Changed(e)
               THEN [e EXCEPT !.ch = Append(@, [r |-> e.a, n |-> regs[e.a].n, C |-> regs[e.a].C, s |-> regs[e.a].s, ind |-> regs[e.a].ind, id |-> regs[e.a].id])]
               ELSE IF e.op = "move" /\ e.a \notin Changed(e)
               THEN [e EXCEPT !.ch = Append(@, [r |-> e.a, n |-> regs[e.a].n, C |-> regs[e.a].C, s |-> regs[e.a].s, ind |-> regs[e.a].ind, id |-> regs[e.a].id])]
               ELSE e

Step ==
  /\ pos < Len(Histories[tr].ev)
  /\ LET e == Complete(Histories[tr].ev[pos + 1])
         j == Judge(e) IN
     /\ pos' = pos + 1
     /\ tr' = tr
     /\ bad' = j.bad \cup Judge2(e) \cup
               {Err(FrameProps(e), <<e.op, "changed a bystander", r>>) : r \in IF e.op = "crash" THEN {} ELSE Changed(e) \ Targets(e)}
     /\ regs' = IF e.op = "crash" THEN regs ELSE
                [r \in Regs |-> IF r \in Changed(e) THEN NewReg(e, r) ELSE regs[r]]
     /\ sup' = IF e.op = "crash" THEN sup ELSE
               [r \in Regs |-> IF r \notin Targets(e) THEN sup[r]
                               ELSE IF e.op \in {"swap", "move"} /\ r = e.a /\ e.a # e.t THEN j.sup2 ELSE j.sup]
     /\ bases' = IF e.op = "new" THEN Append(bases, [n |-> e.n, s |-> e.s, id |-> NewReg(e, e.t).id])
                 ELSE IF e.op = "newb" THEN Append(bases, [n |-> e.n, s |-> e.s, id |-> e.id]) ELSE bases
     /\ used' = IF e.op = "new" THEN used \cup {NewReg(e, e.t).id}
                ELSE IF e.op = "newb" THEN used \cup {e.id}
                ELSE IF e.op = "ids" THEN used \cup {e.v[i] : i \in 1..Len(e.v)} ELSE used

Next == Step

\* the properties in Props are never contradicted
Conforms == \A b \in bad : b.props \cap Props = {}

Brief == [history |-> tr, pos |-> pos, bad |-> {b \in bad : b.props \cap Props # {}},
          op |-> IF pos > 0 THEN Histories[tr].ev[pos].op ELSE "init"]
=============================================================================
