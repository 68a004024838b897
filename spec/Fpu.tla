-------------------------------- MODULE Fpu --------------------------------
(* The floating-point helpers.  A value is [c, m, e]: m * 2^e when c = 0,    *)
(* otherwise +infinity (1), -infinity (2) or a NaN (3).  The sign of a zero  *)
(* is not modelled.                                                          *)
EXTENDS Float
Num(f) == [c |-> 0, m |-> f.m, e |-> f.e]
PInf == [c |-> 1, m |-> Zero, e |-> 0]
NInf == [c |-> 2, m |-> Zero, e |-> 0]
NaNv == [c |-> 3, m |-> Zero, e |-> 0]
Same(a, b) == a.c = b.c /\ (a.c # 0 \/ FEq(a, b))
LessV(a, b) == IF a.c = 3 \/ b.c = 3 THEN FALSE
               ELSE IF a.c = 0 /\ b.c = 0 THEN FCmp(a, b) < 0
               ELSE a.c # b.c /\ (a.c = 2 \/ b.c = 1)
LeqV(a, b) == IF a.c = 3 \/ b.c = 3 THEN FALSE ELSE ~LessV(b, a)
\* the value of format t an exact number becomes
ToFmt(x, t) == IF Overflows(x, t) THEN (IF Sgn(x.m) > 0 THEN PInf ELSE NInf) ELSE Num(Round(x, t))
NegV(a) == IF a.c = 0 THEN Num(FNeg(a)) ELSE IF a.c = 1 THEN NInf ELSE IF a.c = 2 THEN PInf ELSE a
AddV(a, b, t) == IF a.c = 3 \/ b.c = 3 \/ (a.c > 0 /\ b.c > 0 /\ a.c # b.c) THEN NaNv
                 ELSE IF a.c > 0 THEN a ELSE IF b.c > 0 THEN b ELSE ToFmt(FAdd(a, b), t)
SubV(a, b, t) == AddV(a, NegV(b), t)
MinV(a, b) == IF LessV(b, a) THEN b ELSE a
MaxV(a, b) == IF LessV(a, b) THEN b ELSE a

\* x mod y: the remainder of the truncated division, exactly
RECURSIVE PowMod(_, _, _)
PowMod(b, k, m) == IF k = 0 THEN NDiv(<<1>>, m).r
                   ELSE LET h == PowMod(NDiv(NMul(b, b), m).r, k \div 2, m) IN IF k % 2 = 1 THEN NDiv(NMul(h, b), m).r ELSE h
FMod(x, y) ==
  IF Sgn(x.m) = 0 THEN FZero
  ELSE IF x.e >= y.e THEN LET m == Mag(y.m)
                              p == PowMod(NDiv(<<2>>, m).r, x.e - y.e, m)
                          IN FV(Mk(Sgn(x.m), NDiv(NMul(NDiv(Mag(x.m), m).r, p), m).r), y.e)
  ELSE LET k == y.e - x.e IN
       IF Wide(x.m) < Wide(y.m) + k THEN FV(x.m, x.e)
       ELSE FV(Mk(Sgn(x.m), NDiv(Mag(x.m), NShl(Mag(y.m), k)).r), x.e)
ModV(x, y) == IF x.c # 0 \/ y.c = 3 \/ (y.c = 0 /\ Sgn(y.m) = 0) THEN NaNv
              ELSE IF y.c # 0 THEN x ELSE Num(FMod(x, y))

ClampV(v, lo, hi) == IF v.c = 3 THEN v ELSE MaxV(MinV(v, hi), lo)
ApproachV(v, o, s, t) == IF LessV(v, o) THEN MinV(AddV(v, s, t), o)
                         ELSE IF LessV(o, v) THEN MaxV(SubV(v, s, t), o)
                         ELSE v
\* x * y + z, with or without rounding the product
FmaV(x, y, z, t) == {ToFmt(FAdd(FMul(x, y), z), t)} \cup (IF Overflows(FMul(x, y), t) THEN {} ELSE {ToFmt(FAdd(Round(FMul(x, y), t), z), t)})

\* |a - b| <= tol; the difference of numbers may be rounded first
EqualV(a, b, tol, t) ==
  IF a.c = 3 \/ b.c = 3 \/ tol.c = 3 THEN {FALSE}
  ELSE IF a.c # 0 /\ a.c = b.c THEN {TRUE, FALSE}                 \* the difference of infinities is unspecified
  ELSE IF a.c # 0 \/ b.c # 0 THEN {tol.c = 1}
  ELSE LET d == FAbs(FSub(a, b)) IN
       {LeqV(Num(d), tol)} \cup {LeqV(ToFmt(d, t), tol)}
Epsilon(t) == Num(FV(One, 1 - t.p))

\* within k last places of a number of magnitude x
Near(d, k, x, t) == FLe(FAbs(d), FMul(FInt(I(k)), Ulp(x, t)))
Max3(a, b, c) == LET m == IF FLe(a, b) THEN b ELSE a IN IF FLe(m, c) THEN c ELSE m
\* from + t * (to - from): exact when t = 0, and within the rounding of its terms
LerpBound(a, b, s) == Max3(FAbs(a), FAbs(b), FAbs(FMul(s, FSub(b, a))))
LerpExact(a, b, s) == FAdd(a, FMul(s, FSub(b, a)))
LerpInRange(a, b, s, t) == ~Overflows(FMul(FInt(I(8)), LerpBound(a, b, s)), t)
LerpOk(r, a, b, s, t) ==
  IF a.c # 0 \/ b.c # 0 \/ s.c # 0 THEN (a.c = 3 \/ b.c = 3 \/ s.c = 3) => r.c = 3
  ELSE IF ~LerpInRange(a, b, s, t) THEN TRUE
  ELSE /\ r.c = 0
       /\ Near(FSub(r, LerpExact(a, b, s)), 4, LerpBound(a, b, s), t)
       /\ Sgn(s.m) = 0 => FEq(r, a)
\* integers interpolated with a factor of format t
LerpIntOk(r, a, b, s, t) == LET d == FMul(FInt(I(8)), Ulp(LerpBound(a, b, s), t))
                                v == LerpExact(a, b, s) IN
                            /\ r.c = 0 /\ IsIntegral(r)
                            /\ Le(ToInt(FSub(v, d)), ToInt(r)) /\ Le(ToInt(r), ToInt(FAdd(v, d)))

\* pi * 2^156, rounded down
PiBits == <<1, \h382, \h409, \h44A, \h073, \h037, \hA2E, \h198, \h313, \h08D, \h5A3, \h888, \hF6A, \h243, 3>>
PiF == FV(PiBits, -156)
D180 == FInt(I(180))
\* r is pi * x / 180, within the rounding of its factors
ToRadianOk(r, x, t) == IF x.c # 0 THEN r.c = x.c
                       ELSE r.c = 0 /\ Near(FSub(FMul(D180, r), FMul(x, PiF)), 4 * 180, r, t)
ToDegreeOk(r, x, t) ==
  IF x.c # 0 THEN r.c = x.c
  ELSE LET big == FLe(FMul(PiF, FSub(MaxFinite(t), FMul(FInt(I(4)), Ulp(MaxFinite(t), t)))), FMul(D180, FAbs(x))) IN
       IF r.c # 0 THEN big /\ r.c = (IF Sgn(x.m) > 0 THEN 1 ELSE 2)
       ELSE Near(FSub(FMul(PiF, r), FMul(D180, x)), 4 * 4, r, t)

\* constants: the number of the format nearest to the real one
Half(t, r) == FV(One, Lsb(r, t) - 1)
NearestTo(r, lo, t) == LET h == Half(t, r) IN FLe(FSub(r, h), lo) /\ FLe(lo, FAdd(r, h))
IsRoot(r, n, t) == LET h == Half(t, r)
                       l == FSub(r, h)
                       u == FAdd(r, h) IN FLe(FMul(l, l), FInt(I(n))) /\ FLe(FInt(I(n)), FMul(u, u))
F80 == [p |-> 64, emin |-> -16445, emax |-> 16320]
ConstOk(name, r, t) ==
  CASE name = "Pi" -> r.c = 0 /\ IsIn(r, t) /\ NearestTo(r, PiF, t)
    [] name = "HalfPi" -> r.c = 0 /\ IsIn(r, t) /\ NearestTo(r, FMul(PiF, FV(One, -1)), t)
    [] name = "Tau" -> r.c = 0 /\ IsIn(r, t) /\ NearestTo(r, FMul(PiF, FV(One, 1)), t)
    [] name = "Sqrt2" -> r.c = 0 /\ IsIn(r, t) /\ IsRoot(r, 2, t)
    [] name = "Sqrt3" -> r.c = 0 /\ IsIn(r, t) /\ IsRoot(r, 3, t)
    [] name = "Sqrt5" -> r.c = 0 /\ IsIn(r, t) /\ IsRoot(r, 5, t)
    [] name = "Infinity" -> r.c = 1
    [] name = "NaN" -> r.c = 3
    [] name = "MaxValue" -> r.c = 0 /\ FEq(r, MaxFinite(t))
    [] name = "MinValue" -> r.c = 0 /\ FEq(r, FV(One, t.emin + t.p - 1))          \* the smallest normal number
IntConstOk(name, r, w, signed) ==
  CASE name = "MaxValue" -> r = MaxOf(w, signed)
    [] name = "MinValue" -> r = MinOf(w, signed)
============================================================================
