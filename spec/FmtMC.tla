------------------------------- MODULE FmtMC -------------------------------
(***************************************************************************)
(* Module Fmt against a reference formatter on exact decimals: the         *)
(* reference text is allowed, and altered texts (a digit changed, the sign *)
(* dropped or added, a decimal more or less, another exponent) are not.    *)
(* mu = a / 1000 and s = b / 1000, all small a and b.  Each case is printed *)
(* and formatted by the real code (harness/fmt.cpp, at several powers of    *)
(* ten), the text being judged by FmtTrace.                                 *)
(***************************************************************************)
EXTENDS Fmt
CONSTANTS A, B, EMIT
VARIABLES a, b, n, fr, go
vars == <<a, b, n, fr, go>>
Sep == <<" ", "+", "-", " ">>
DS == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Dig(_)
Dig(i) == IF i < 10 THEN <<DS[i + 1]>> ELSE Dig(i \div 10) \o <<DS[(i % 10) + 1]>>
RECURSIVE P10(_)
P10(k) == IF k = 0 THEN 1 ELSE 10 * P10(k - 1)
RECURSIVE Ex(_)
Ex(i) == IF i < 10 THEN 0 ELSE 1 + Ex(i \div 10)
Abs(i) == IF i < 0 THEN -i ELSE i
\* round i to a multiple of 10^w, half up, in units of 10^w
RoundTo(i, w) == IF w <= 0 THEN i * P10(-w) ELSE (i + P10(w) \div 2) \div P10(w)
\* integer I in units of 10^-d, d decimals
RECURSIVE Zeros(_)
Zeros(k) == IF k <= 0 THEN << >> ELSE <<"0">> \o Zeros(k - 1)
Dec(I, d) == LET s == Dig(I) z == Zeros(d + 1 - Len(s)) \o s IN
  IF d <= 0 THEN z ELSE SubSeq(z, 1, Len(z) - d) \o <<".">> \o SubSeq(z, Len(z) - d + 1, Len(z))

\* thresholds 10^frac as used: frac = 0 or 0.5 (10^0.5 = 3.1622..)
Frac == IF fr THEN RFrac(1, 2) ELSE 0
T == IF fr THEN RParse("3.16227766016837933") ELSE 1
\* number of digits for b, exponent e (mantissa b / 10^e < 10^0.5 iff b^2 < 10^(2e+1))
KOf(x, e) == IF fr /\ x * x < P10(2 * e + 1) THEN n + 1 ELSE n
Ref ==     \* [u, im, is]: unit exponent relative to 1/1000, integers
  LET e == Ex(b)  k0 == KOf(b, e)  w == e + 1 - k0  I == RoundTo(b, w) IN
  IF I < P10(k0) THEN [u |-> w, is |-> I, im |-> RoundTo(Abs(a), w)]
  ELSE LET k == IF fr THEN n + 1 ELSE n  w1 == e + 2 - k IN [u |-> w1, is |-> P10(k - 1), im |-> RoundTo(Abs(a), w1)]
Text(r, neg, big, sgnexp) ==
  LET u == r.u - 3  paren == u > 0 \/ big < -1  d == IF paren THEN big - u ELSE -u IN
  (IF paren THEN <<"(">> ELSE << >>) \o (IF neg THEN <<"-">> ELSE << >>) \o Dec(r.im, d) \o Sep \o Dec(r.is, d)
  \o (IF paren THEN <<")", "e", IF big > 0 THEN "+" ELSE "-">> \o Dig(Abs(big)) ELSE << >>)
Big(r) == LET em == IF r.im = 0 THEN -100 ELSE Ex(r.im) es == Ex(r.is) IN (IF em > es THEN em ELSE es) + r.u - 3
EE(x) == IF x = 0 THEN 0 ELSE Ex(x) - 3
Wrong(c) == PairWrong(c, Sep, RFrac(a, 1000), EE(Abs(a)), RFrac(b, 1000), EE(b), n, Frac, T, 53, 53, 53)
Tie == LET r == Ref w == r.u IN w > 0 /\ (2 * Abs(a)) % P10(w) = 0 /\ ((2 * Abs(a)) \div P10(w)) % 2 = 1

Init == a = 0 /\ b \in 1..B /\ n = 1 /\ fr = FALSE /\ go = FALSE
Next == ~go /\ go' = TRUE /\ a' \in (-A)..A /\ n' \in 1..3 /\ fr' \in BOOLEAN /\ b' = b
Emit == EMIT => PrintT("P " \o ToString(a') \o " " \o ToString(b) \o " " \o ToString(n') \o " " \o (IF fr' THEN "1" ELSE "0"))
Allowed == go => Wrong(Text(Ref, a < 0, Big(Ref), 0)) = ""
Rejected == go =>
  LET r == Ref  big == Big(r) t == Text(r, a < 0, big, 0) IN
  /\ Wrong([t EXCEPT ![Len(t)] = "x"]) # ""
  /\ Wrong(Text([r EXCEPT !.is = r.is + 1], a < 0, big, 0)) # ""
  /\ r.is > 1 => Wrong(Text([r EXCEPT !.is = r.is - 1], a < 0, big, 0)) # "" \/ (r.u > 0 /\ (2 * b) % P10(r.u) = 0)
  /\ Tie \/ Wrong(Text([r EXCEPT !.im = r.im + 1], a < 0, big, 0)) # ""
  /\ (r.im > 0 /\ ~Tie) => Wrong(Text([r EXCEPT !.im = r.im - 1], a < 0, big, 0)) # ""
  /\ Wrong(Text(r, a >= 0, big, 0)) # ""
  /\ Wrong(Text(r, a < 0, big + 1, 0)) # "" \/ Text(r, a < 0, big + 1, 0) = t
  /\ Wrong(Text([u |-> r.u - 1, is |-> r.is * 10, im |-> r.im * 10], a < 0, big, 0)) # ""
  /\ Wrong(Text([r EXCEPT !.u = r.u + 1], a < 0, big + 1, 0)) # ""
=============================================================================
