-------------------------------- MODULE Big --------------------------------
(* Integers of any size (TLC's are 32 bits): <<sign, d0, d1, ...>>, sign in  *)
(* {-1, 0, 1}, digits in base 4096, least significant first, no leading 0.   *)
EXTENDS Integers, Sequences
Base == 4096
LOCAL D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL Max2(x, y) == IF x > y THEN x ELSE y
LOCAL Min2(x, y) == IF x < y THEN x ELSE y

\* naturals: sequences of digits
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE NCmpAt(a, b, Len(a))
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, c, r) == IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN r ELSE Append(r, c))
                          ELSE LET s == D(a, i) + D(b, i) + c IN AddFrom(a, b, i + 1, s \div Base, Append(r, s % Base))
NAdd(a, b) == AddFrom(a, b, 1, 0, <<>>)
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, c, r) == IF i > Len(a) THEN r
                          ELSE LET s == a[i] - D(b, i) - c IN
                               IF s < 0 THEN SubFrom(a, b, i + 1, 1, Append(r, s + Base)) ELSE SubFrom(a, b, i + 1, 0, Append(r, s))
NSub(a, b) == Trim(SubFrom(a, b, 1, 0, <<>>))       \* a >= b
RECURSIVE ScaleFrom(_, _, _, _, _)
ScaleFrom(a, k, i, c, r) == IF i > Len(a) THEN (IF c = 0 THEN r ELSE Append(r, c))
                            ELSE LET s == a[i] * k + c IN ScaleFrom(a, k, i + 1, s \div Base, Append(r, s % Base))
NScale(a, k) == IF k = 0 THEN <<>> ELSE ScaleFrom(a, k, 1, 0, <<>>)     \* k < Base
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) == IF i > Len(b) THEN <<>> ELSE NAdd(NScale(a, b[i]), LET t == MulFrom(a, b, i + 1) IN IF t = <<>> THEN t ELSE <<0>> \o t)
NMul(a, b) == Trim(MulFrom(a, b, 1))
\* the greatest digit q with q * b <= r, r < Base * b
RECURSIVE Digit(_, _, _, _)
Digit(r, b, lo, hi) == IF lo = hi THEN lo
                       ELSE LET m == (lo + hi + 1) \div 2 IN
                            IF NCmp(NScale(b, m), r) <= 0 THEN Digit(r, b, m, hi) ELSE Digit(r, b, lo, m - 1)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) == IF i = 0 THEN [q |-> Trim(q), r |-> r]
                          ELSE LET r1 == Trim(<<a[i]>> \o r)
                                   d == IF NCmp(r1, b) < 0 THEN 0 ELSE Digit(r1, b, 1, Base - 1)
                               IN DivFrom(a, b, i - 1, <<d>> \o q, IF d = 0 THEN r1 ELSE NSub(r1, NScale(b, d)))
NDiv(a, b) == DivFrom(a, b, Len(a), <<>>, <<>>)      \* b > 0: quotient and remainder

\* integers
Zero == <<0>>
One  == <<1, 1>>
Mag(x) == SubSeq(x, 2, Len(x))
Sgn(x) == x[1]
Mk(s, m) == IF m = <<>> THEN Zero ELSE <<s>> \o m
RECURSIVE NFrom(_)
NFrom(k) == IF k = 0 THEN <<>> ELSE <<k % Base>> \o NFrom(k \div Base)
I(k) == IF k >= 0 THEN Mk(1, NFrom(k)) ELSE Mk(-1, NFrom(-k))
Neg(x) == IF Sgn(x) = 0 THEN x ELSE Mk(-Sgn(x), Mag(x))
Abs(x) == Mk(1, Mag(x))
Cmp(x, y) == IF Sgn(x) # Sgn(y) THEN (IF Sgn(x) < Sgn(y) THEN -1 ELSE 1)
             ELSE IF Sgn(x) >= 0 THEN NCmp(Mag(x), Mag(y)) ELSE NCmp(Mag(y), Mag(x))
Lt(x, y) == Cmp(x, y) < 0
Le(x, y) == Cmp(x, y) <= 0
Add(x, y) == IF Sgn(x) = 0 THEN y ELSE IF Sgn(y) = 0 THEN x
             ELSE IF Sgn(x) = Sgn(y) THEN Mk(Sgn(x), NAdd(Mag(x), Mag(y)))
             ELSE LET c == NCmp(Mag(x), Mag(y)) IN
                  IF c = 0 THEN Zero ELSE IF c > 0 THEN Mk(Sgn(x), NSub(Mag(x), Mag(y))) ELSE Mk(Sgn(y), NSub(Mag(y), Mag(x)))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == IF Sgn(x) = 0 \/ Sgn(y) = 0 THEN Zero ELSE Mk(Sgn(x) * Sgn(y), NMul(Mag(x), Mag(y)))
\* truncated division, as in C++
QuoT(x, y) == IF Sgn(x) = 0 THEN Zero ELSE Mk(Sgn(x) * Sgn(y), NDiv(Mag(x), Mag(y)).q)
RemT(x, y) == IF Sgn(x) = 0 THEN Zero ELSE Mk(Sgn(x), NDiv(Mag(x), Mag(y)).r)
\* floored
RemF(x, y) == LET r == RemT(x, y) IN IF Sgn(r) # 0 /\ Sgn(r) # Sgn(y) THEN Add(r, y) ELSE r
\* powers of two and shifts of the magnitude
LOCAL Zeros(n) == [i \in 1..n |-> 0]
NShl(a, k) == IF a = <<>> THEN a ELSE Zeros(k \div 12) \o NScale(a, 2 ^ (k % 12))
NShr(a, k) == IF k \div 12 >= Len(a) THEN <<>>
              ELSE LET d == SubSeq(a, k \div 12 + 1, Len(a)) IN
                   IF k % 12 = 0 THEN d ELSE Trim(Tail(NScale(d, 2 ^ (12 - (k % 12)))))
TwoTo(k) == <<1>> \o Zeros(k \div 12) \o <<2 ^ (k % 12)>>
Shl(x, k) == Mk(Sgn(x), NShl(Mag(x), k))
Shr(x, k) == Mk(Sgn(x), NShr(Mag(x), k))         \* truncated
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN One ELSE LET h == Pow(Mul(x, x), k \div 2) IN IF k % 2 = 1 THEN Mul(x, h) ELSE h
BMin(x, y) == IF Le(x, y) THEN x ELSE y
BMax(x, y) == IF Le(x, y) THEN y ELSE x
\* k with 2^k <= x < 2^(k+1), x > 0
LOCAL DigitLog(d) == CHOOSE k \in 0..11 : 2 ^ k <= d /\ d < 2 ^ (k + 1)
Log2(x) == LET m == Mag(x) IN 12 * (Len(m) - 1) + DigitLog(m[Len(m)])
\* range of an integer type
MinOf(w, signed) == IF signed THEN Neg(TwoTo(w - 1)) ELSE Zero
MaxOf(w, signed) == Sub(TwoTo(IF signed THEN w - 1 ELSE w), One)
Fits(x, w, signed) == Le(MinOf(w, signed), x) /\ Le(x, MaxOf(w, signed))
============================================================================
