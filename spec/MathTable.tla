------------------------------ MODULE MathTable ------------------------------
(* The derivative formulas of MathFn agree with central differences of the   *)
(* standard functions (long double values recorded by "h1 table").           *)
EXTENDS MathFn, TLC, Json, IOUtils
T == TLCEval(ndJsonDeserialize(IOEnv.TRACE)[1].ev)
VARIABLE i
Init == i \in 1..Len(T)
Next == UNCHANGED i
Ok(d, q) == RClose(d[1], q, 13, RMax(1, RAbs(q)))
Conforms ==
  LET e == T[i]
      p(s) == RParse(s)
      w == TLCEval([j \in 1..Len(e.w) |-> p(e.w[j])])
      x == p(e.x)  h == p(e.h) v == p(e.v) IN
  IF e.op = "tab1" THEN
    LET d == D1(e.f, x, v, w) IN
    /\ Ok(d[1], RDiv(RSub(p(e.vp), p(e.vm)), RMul(2, h)))
    /\ Ok(d[2], RDiv(RSub(RAdd(p(e.vp), p(e.vm)), RMul(2, v)), RMul(h, h)))
  ELSE
    LET y == p(e.y)  d == D2(e.f, x, y, v, w)
        g(a, b) == p(e.g[3 * (a + 1) + b + 2])
        hh == RMul(h, h) IN
    /\ Ok(d[1], RDiv(RSub(g(1, 0), g(-1, 0)), RMul(2, h)))
    /\ Ok(d[2], RDiv(RSub(g(0, 1), g(0, -1)), RMul(2, h)))
    /\ Ok(d[3], RDiv(RSub(RAdd(g(1, 0), g(-1, 0)), RMul(2, v)), hh))
    /\ Ok(d[4], RDiv(RSub(RAdd(g(0, 1), g(0, -1)), RMul(2, v)), hh))
    /\ Ok(d[5], RDiv(RSub(RAdd(g(1, 1), g(-1, -1)), RAdd(g(1, -1), g(-1, 1))), RMul(4, hh)))
Brief == [i |-> i, f |-> T[i].f, e |-> T[i]]
=============================================================================
