------------------------------ MODULE RatPure ------------------------------
(* Rationals as pairs <<n, d>>, d > 0, gcd(n, d) = 1: the reference meaning *)
(* of the operators of module Rat.                                          *)
EXTENDS Integers, Sequences

IAbs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(p) == LET n == p[1]  d == p[2]
               g == Gcd(IAbs(n), IAbs(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN << (s * n) \div g, (s * d) \div g >>
Add(a, b) == Norm(<< a[1] * b[2] + b[1] * a[2], a[2] * b[2] >>)
Neg(a)    == << -a[1], a[2] >>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Norm(<< a[1] * b[1], a[2] * b[2] >>)
Div(a, b) == Norm(<< a[1] * b[2], a[2] * b[1] >>)
Abs(a)    == << IAbs(a[1]), a[2] >>
Lt(a, b)  == a[1] * b[2] < b[1] * a[2]
Le(a, b)  == a[1] * b[2] <= b[1] * a[2]
Eq(a, b)  == a[1] * b[2] = b[1] * a[2]
RECURSIVE PowN(_, _)
PowN(a, k) == IF k = 0 THEN <<1, 1>> ELSE Mul(a, PowN(a, k - 1))
Pow(a, k) == IF k >= 0 THEN PowN(a, k) ELSE Div(<<1, 1>>, PowN(a, -k))
Floor(a)  == << a[1] \div a[2], 1 >>
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN <<0, 1>> ELSE Add(Head(s), Sum(Tail(s)))
Dot(s, t) == Sum([i \in 1..Len(s) |-> Mul(s[i], t[i])])
Norm1(s)  == Sum([i \in 1..Len(s) |-> Abs(s[i])])
Axpy(a, s, b, t) == [i \in 1..Len(s) |-> Add(Mul(a, s[i]), Mul(b, t[i]))]
ToInt(a) == a[1]
=============================================================================
