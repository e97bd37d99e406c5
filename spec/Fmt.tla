-------------------------------- MODULE Fmt --------------------------------
(***************************************************************************)
(* The text produced by format (io.hpp), as a sequence of characters.      *)
(*                                                                         *)
(*  Text    ::= Pair | "(" Pair ")e" Exp | Plain sep Plain                 *)
(*  Pair    ::= ["-"] Digits sep Digits                                    *)
(*  Plain   ::= "nan" | ["-"] "inf" | "0" | ["-"] Digits ["e" Exp]         *)
(*  Exp     ::= ("+" | "-") digits                                         *)
(*                                                                         *)
(* The relation below says which texts are allowed for a mean mu, an       *)
(* uncertainty s and a number of digits d.  It does not say how ties of    *)
(* the rounding are broken, and admits a few units of rounding error of    *)
(* the numeric type (numbers beyond its precision).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, TLC

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsAt(c, w, i) == i + Len(w) - 1 <= Len(c) /\ \A k \in 1..Len(w) : c[i + k - 1] = w[k]
\* first position from i on that is not in set S
RECURSIVE Skip(_, _, _)
Skip(c, S, i) == IF i + 32 <= Len(c) /\ \A k \in i..(i + 31) : c[k] \in S THEN Skip(c, S, i + 32)
                 ELSE IF i <= Len(c) /\ c[i] \in S THEN Skip(c, S, i + 1) ELSE i
RECURSIVE Cat(_, _, _)
Cat(c, i, j) == IF i >= j THEN "" ELSE IF j - i = 1 THEN c[i] ELSE LET k == (i + j) \div 2 IN Cat(c, i, k) \o Cat(c, k, j)

Bad == [ok |-> FALSE]
(* an unsigned number from i: [ok, next, v (value), dec (decimals), int (digits before the point)] *)
Number(c, i) ==
  LET j == Skip(c, Digit, i)
      dot == j <= Len(c) /\ c[j] = "."
      k == IF dot THEN Skip(c, Digit, j + 1) ELSE j IN
  IF j = i \/ (dot /\ k = j + 1) THEN Bad
  ELSE [ok |-> TRUE, next |-> k, dec |-> IF dot THEN k - j - 1 ELSE 0, int |-> j - i,
        canon |-> (j - i = 1 \/ c[i] # "0"),
        v |-> RMul(RParse(Cat(c, i, j) \o (IF dot THEN Cat(c, j + 1, k) ELSE "")), RPow(10, -(IF dot THEN k - j - 1 ELSE 0)))]
(* a signed exponent from i *)
Exponent(c, i) ==
  IF i > Len(c) \/ c[i] \notin {"+", "-"} THEN Bad
  ELSE LET j == Skip(c, Digit, i + 1) IN
    IF j = i + 1 \/ j - i > 6 THEN Bad
    ELSE [ok |-> TRUE, next |-> j, e |-> (IF c[i] = "-" THEN -1 ELSE 1) * RToInt(RParse(Cat(c, i + 1, j))), lead |-> c[i + 1] = "0"]
Num0(c, i) == IF i <= Len(c) THEN Number(c, i) ELSE Bad

(* "(m sep s)e+x" or "m sep s" *)
Pair(c, sep) ==
  LET paren == Len(c) > 0 /\ c[1] = "("
      i == IF paren THEN 2 ELSE 1
      neg == i <= Len(c) /\ c[i] = "-"
      a == Num0(c, IF neg THEN i + 1 ELSE i) IN
  IF ~a.ok THEN Bad
  ELSE IF ~IsAt(c, sep, a.next) THEN Bad
  ELSE LET b == Num0(c, a.next + Len(sep)) IN
    IF ~b.ok THEN Bad
    ELSE IF ~paren THEN IF b.next = Len(c) + 1 THEN [ok |-> TRUE, paren |-> FALSE, neg |-> neg, m |-> a, s |-> b, e |-> 0, lead |-> FALSE] ELSE Bad
    ELSE IF ~IsAt(c, <<")", "e">>, b.next) THEN Bad
    ELSE LET x == Exponent(c, b.next + 2) IN
      IF ~x.ok THEN Bad ELSE IF x.next # Len(c) + 1 THEN Bad
      ELSE [ok |-> TRUE, paren |-> TRUE, neg |-> neg, m |-> a, s |-> b, e |-> x.e, lead |-> x.lead]

(* one number alone, from i up to the end or up to a separator: [ok, next, kind, ...] *)
Single(c, i) ==
  LET neg == i <= Len(c) /\ c[i] = "-"
      j == IF neg THEN i + 1 ELSE i IN
  IF IsAt(c, <<"n", "a", "n">>, i) THEN [ok |-> TRUE, next |-> i + 3, kind |-> "nan"]
  ELSE IF IsAt(c, <<"i", "n", "f">>, j) THEN [ok |-> TRUE, next |-> j + 3, kind |-> IF neg THEN "-inf" ELSE "inf"]
  ELSE LET a == Num0(c, j) IN
    IF ~a.ok THEN Bad
    ELSE IF a.next <= Len(c) /\ c[a.next] = "e"
      THEN LET x == Exponent(c, a.next + 1) IN
           IF ~x.ok THEN Bad ELSE [ok |-> TRUE, next |-> x.next, kind |-> "num", neg |-> neg, a |-> a, ex |-> TRUE, e |-> x.e, lead |-> x.lead]
      ELSE [ok |-> TRUE, next |-> a.next, kind |-> "num", neg |-> neg, a |-> a, ex |-> FALSE, e |-> 0, lead |-> FALSE]
Singles(c, sep) ==
  LET a == Single(c, 1) IN
  IF ~a.ok THEN Bad
  ELSE IF ~IsAt(c, sep, a.next) THEN Bad
  ELSE LET b == Single(c, a.next + Len(sep)) IN
    IF ~b.ok THEN Bad ELSE IF b.next # Len(c) + 1 THEN Bad ELSE [ok |-> TRUE, a |-> a, b |-> b]

-----------------------------------------------------------------------------
\* x has decimal exponent e
HasExp(x, e) == RLe(RPow(10, e), x) /\ RLt(x, RPow(10, e + 1))
\* rounding error of the type: p bits, numbers of n digits
Tolr(p, n) == RMul(RPow(2, 1 - p), 8 + n)
Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)

(* exponents an implementation may work with: x within a few ulps of a power *)
Exps(x, e, p) == {e} \cup (IF Near(x, RPow(10, e + 1), RMul(x, RPow(2, 2 - p))) THEN {e + 1} ELSE {})
                     \cup (IF Near(x, RPow(10, e), RMul(x, RPow(2, 2 - p))) THEN {e - 1} ELSE {})
(* allowed numbers of digits for a number x of exponent e, n + frac         *)
(* requested, t = 10^frac                                                   *)
Digits(x, e, n, frac, t) ==
  IF REq(frac, 0) THEN {n}
  ELSE LET m == RMul(x, RPow(10, -e))
           tol == RMul(RFrac(1, 2097152), 4 + (IF e < 0 THEN -e ELSE e)) IN   \* single precision logarithm
    (IF RLt(m, RAdd(t, RMul(t, tol))) \/ ~RLt(m, RSub(10, RMul(10, tol))) THEN {n + 1} ELSE {})
    \cup (IF RLt(RSub(t, RMul(t, tol)), m) THEN {n} ELSE {})

(* v, printed in units of 10^u, is s rounded to the digits requested        *)
(* (sub: s is subnormal, the type may not hold the rounded value)           *)
Uncertainty(v, u, s, es, n, frac, t, p, nd, sub) ==
  LET tol == RMul(s, Tolr(p, nd)) IN
  \E e \in Exps(s, es, p) : \E k \in Digits(s, e, n, frac, t) :
    LET half == RAdd(RMul(RFrac(1, 2), RPow(10, e + 1 - k)), tol)
        k1 == IF REq(frac, 0) THEN n ELSE n + 1 IN
    \/ u = e + 1 - k /\ Near(v, s, half) /\ RLt(v, RPow(10, e + 1))
    \* rounded up to the next power of ten
    \/ Near(RPow(10, e + 1), s, half) /\ REq(v, RPow(10, e + 1)) /\ (u = e + 2 - k1 \/ (sub /\ u = e + 2 - k))
\* v, printed in units of 10^u, is x >= 0 rounded to that unit
Rounded(v, u, x, p, nd) == Near(v, x, RAdd(RMul(RFrac(1, 2), RPow(10, u)), RMul(x, Tolr(p, nd))))

\* decimal exponent of a printed number: digits before the point, or position of the first nonzero one
RECURSIVE ExpOf(_, _)
ExpOf(v, hi) == IF RLt(v, RPow(10, hi - 31)) THEN ExpOf(v, hi - 32) ELSE IF RLe(RPow(10, hi), v) THEN hi ELSE ExpOf(v, hi - 1)
PExp(a, e) == IF REq(a.v, 0) THEN -100000 ELSE ExpOf(a.v, a.int - 1) + e
MaxI(a, b) == IF a > b THEN a ELSE b

(* the text c for mean mu and uncertainty s: "" or what is wrong            *)
PairWrong(c, sep, mu, em, s, es, n, frac, t, p, ps, pm) ==
  LET r == Pair(c, sep) IN
  IF ~r.ok THEN "syntax"
  ELSE IF ~r.m.canon \/ ~r.s.canon \/ r.lead THEN "leading zeros"
  ELSE IF r.m.dec # r.s.dec THEN "mean and uncertainty not aligned"
  ELSE
    LET u == r.e - r.m.dec
        nd == MaxI(r.m.int, r.s.int) + r.m.dec
        sc == RPow(10, r.e)
        vm == RMul(r.m.v, sc)  vs == RMul(r.s.v, sc)  am == RAbs(mu)
        big == MaxI(PExp(r.m, r.e), PExp(r.s, r.e))
        \* a number just below a power of ten may be laid out as that power
        top(x) == RLt(0, x) /\ Near(x, RPow(10, big + 1), RMul(x, Tolr(p, nd)))
        bigs == {big} \cup (IF top(vm) \/ top(vs) THEN {big + 1} ELSE {}) IN
    IF ~Uncertainty(vs, u, s, es, n, frac, t, ps, nd, ps < p) THEN "uncertainty"
    ELSE IF ~Rounded(vm, u, am, pm, nd) THEN "mean"
    ELSE IF r.neg # RLt(mu, 0) THEN "sign"
    ELSE IF \E b \in bigs : (r.paren <=> (u > 0 \/ b < -1)) /\ (r.paren => r.e = b) THEN ""
    ELSE "layout"

(* one number printed alone, with six digits                                *)
SingleWrong(r, x, ex, p) ==       \* x: rational or "nan", "inf", "-inf"
  IF ~RIsNum(x) THEN IF r.kind = x THEN "" ELSE "special value"
  ELSE IF r.kind # "num" THEN "special value"
  ELSE IF REq(x, 0) THEN IF REq(r.a.v, 0) /\ ~r.ex /\ r.a.dec = 0 /\ ~r.neg /\ r.a.int = 1 THEN "" ELSE "zero"
  ELSE IF ~r.a.canon \/ r.lead THEN "leading zeros"
  ELSE
    LET u == r.e - r.a.dec
        v == RMul(r.a.v, RPow(10, r.e))
        ax == RAbs(x)
        pe == PExp(r.a, r.e) IN
    IF r.neg # RLt(x, 0) THEN "sign"
    ELSE IF ~(\E e \in Exps(ax, ex, p) :
                 LET half == RAdd(RMul(RFrac(1, 2), RPow(10, e - 5)), RMul(ax, Tolr(p, 8))) IN
                 \/ u = e - 5 /\ Near(v, ax, half) /\ RLt(v, RPow(10, e + 1))
                 \/ u = e - 4 /\ Near(RPow(10, e + 1), ax, half) /\ REq(v, RPow(10, e + 1))) THEN "rounding"
    ELSE IF (r.ex <=> (pe >= 6 \/ pe < -1)) /\ (r.ex => r.e = pe) THEN "" ELSE "layout"
SinglesWrong(c, sep, mu, em, s, es, ps, pm) ==
  LET r == Singles(c, sep) IN
  IF ~r.ok THEN "syntax"
  ELSE LET a == SingleWrong(r.a, mu, em, pm)  b == SingleWrong(r.b, s, es, ps) IN
    IF a # "" THEN "mean: " \o a ELSE IF b # "" THEN "uncertainty: " \o b ELSE ""
=============================================================================
