------------------------------ MODULE Extreme ------------------------------
(***************************************************************************)
(* Covariances of linear expressions of two independent variables whose    *)
(* standard deviations are so large or small that variances are            *)
(* representable and products of variances are not:                        *)
(*   a = p x,   b = q x + r y,   sdev(x) = s,  sdev(y) = u                 *)
(* The same for first- and second-order variables, as there is no second   *)
(* derivative.  o: what was observed.                                      *)
(***************************************************************************)
EXTENDS Rat
Sq(x) == RMul(x, x)
FarWrong(o, k) ==
  LET p == RParse(o.p)  q == RParse(o.q)  r == RParse(o.r)  s2 == Sq(RParse(o.s))  u2 == Sq(RParse(o.u))
      c == RMul(RMul(p, q), s2)
      va == RMul(Sq(p), s2)  vb == RAdd(RMul(Sq(q), s2), RMul(Sq(r), u2))
      Ok(x, w) == RIsNum(x) /\ RClose(x, w, k, RAbs(w))
      sa == RParse(o.sa)  sb == RParse(o.sb)  cr == RParse(o.corr)
      sd == RIsNum(sa) /\ RLe(0, sa) /\ Ok(Sq(sa), va) /\ RIsNum(sb) /\ RLe(0, sb) /\ Ok(Sq(sb), vb) IN
  IF ~(Ok(RParse(o.va), va) /\ Ok(RParse(o.vb), vb)) THEN "var"
  ELSE IF ~sd THEN "s"
  ELSE IF ~(Ok(RParse(o.cov), c) /\ Ok(RParse(o.cov2), c)) THEN "cov"
  \* a correlation is at most 1: its error is absolute, c / sa / sb may underflow
  ELSE IF ~(RIsNum(cr) /\ RClose(RMul(cr, RMul(sa, sb)), c, k, RMul(sa, sb))) THEN "corr"
  ELSE ""
=============================================================================
