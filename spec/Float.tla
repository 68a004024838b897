------------------------------- MODULE Float -------------------------------
(* IEEE-754 binary numbers as exact dyadic rationals: [m, e] is m * 2^e with *)
(* m an integer of Big and e one of TLC's.                                   *)
EXTENDS Big
FV(m, e) == [m |-> m, e |-> e]
LOCAL MinI(x, y) == IF x < y THEN x ELSE y
LOCAL MaxI(x, y) == IF x < y THEN y ELSE x
Wide(x) == IF Sgn(x) = 0 THEN 0 ELSE Log2(Abs(x)) + 1               \* bits of the magnitude
\* the same number with the exponent lowered to e
At(f, e) == Shl(f.m, f.e - e)
FCmp(a, b) == LET e == MinI(a.e, b.e) IN Cmp(At(a, e), At(b, e))
FEq(a, b) == FCmp(a, b) = 0
FLe(a, b) == FCmp(a, b) <= 0
FAdd(a, b) == LET e == MinI(a.e, b.e) IN FV(Add(At(a, e), At(b, e)), e)
FNeg(a) == FV(Neg(a.m), a.e)
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) == FV(Mul(a.m, b.m), a.e + b.e)
FAbs(a) == FV(Abs(a.m), a.e)
FInt(x) == FV(x, 0)
FZero == FV(Zero, 0)
\* formats: p bits of precision, exponents of the last place within emin..emax
F32 == [p |-> 24, emin |-> -149, emax |-> 104]
F64 == [p |-> 53, emin |-> -1074, emax |-> 971]
MaxFinite(t) == FV(Sub(TwoTo(t.p), One), t.emax)
\* exponent of the last place of the number nearest to x
Lsb(x, t) == IF Sgn(x.m) = 0 THEN t.emin ELSE MaxI(x.e + Wide(x.m) - t.p, t.emin)
Ulp(x, t) == FV(One, Lsb(x, t))
\* division of the magnitude by 2^k, to nearest and ties to even
HalfEven(m, k) == LET q == NShr(Mag(m), k)
                      r == NSub(Mag(m), NShl(q, k))
                      c == NCmp(NShl(r, 1), Mag(TwoTo(k)))
                      odd == q # <<>> /\ q[1] % 2 = 1
                  IN Mk(Sgn(m), IF c > 0 \/ (c = 0 /\ odd) THEN NAdd(q, <<1>>) ELSE q)
\* the number of format t nearest to x; not a number of t if it overflows
Round(x, t) == LET q == Lsb(x, t) IN
               IF x.e >= q THEN FV(Shl(x.m, x.e - q), q) ELSE FV(HalfEven(x.m, q - x.e), q)
Overflows(x, t) == FCmp(FAbs(Round(x, t)), MaxFinite(t)) > 0
IsIn(x, t) == ~Overflows(x, t) /\ FEq(Round(x, t), x)
\* integral numbers
IsIntegral(x) == Sgn(x.m) = 0 \/ x.e >= 0 \/ (-x.e < Wide(x.m) /\ Shl(Shr(x.m, -x.e), -x.e) = x.m)
ToInt(x) == IF Sgn(x.m) = 0 THEN Zero ELSE IF x.e >= 0 THEN Shl(x.m, x.e) ELSE Shr(x.m, -x.e)       \* truncated
============================================================================
