------------------------------- MODULE MC_Fpu -------------------------------
(* A register taken through the helpers: on a format of three bits of        *)
(* precision the laws of each are checked against every operand; on that of  *)
(* float the transitions are replayed in the real code.                      *)
EXTENDS Fpu, TLC, FiniteSets, Json
CONSTANTS Mode, Steps0
Small == [p |-> 3, emin |-> -3, emax |-> 1]
T == IF Mode = "small" THEN Small ELSE F32
SmallVals == {Num(FV(I(m), e)) : m \in 4..7, e \in -3..1} \cup {Num(FV(I(m), e)) : m \in -7..-4, e \in {-3, 0, 1}} \cup {Num(FV(I(m), -3)) : m \in -3..3}
FloatVals == {Num(FZero), Num(FInt(I(1))), Num(FInt(I(-7))), Num(Round(FMul(FInt(I(5)), FV(I(1677722), -24)), F32)), Num(FV(I(13421773), -27)), Num(FV(One, -149)),
              Num(MaxFinite(F32)), Num(FNeg(MaxFinite(F32))), Num(FV(One, 40)), Num(FV(I(-9), -3))}
Vals == (IF Mode = "small" THEN SmallVals ELSE FloatVals) \cup {PInf, NInf, NaNv}
Steps == {v \in Vals : v.c = 0 /\ Sgn(v.m) >= 0}
VARIABLES acc, act, n
vars == <<acc, act, n>>
Init == acc \in Vals /\ act = [op |-> "Begin"] /\ n = 0
Take(r, a) == acc' = r /\ act' = a /\ n' = n + 1
Next == n < Steps0 /\ (
  \/ \E y \in Vals : Take(ModV(acc, y), [op |-> "Mod", a |-> <<acc, y>>])
  \/ \E lo, hi \in {v \in Vals : v.c # 3} : LeqV(lo, hi) /\ Take(ClampV(acc, lo, hi), [op |-> "Clamp", a |-> <<acc, lo, hi>>])
  \/ \E o \in Vals, s \in Steps : Take(ApproachV(acc, o, s, T), [op |-> "Approach", a |-> <<acc, o, s>>])
  \/ \E y, tol \in Vals : Take(acc, [op |-> "Equals", a |-> <<acc, y, tol>>]))
Spec == Init /\ [][Next]_vars
A(i) == act.a[i]
IsTake(o) == act.op = o
IsVal(v) == v.c # 0 \/ IsIn(v, T)
Representable == IsVal(acc)
ModLaw == IsTake("Mod") => LET x == A(1)
                               y == A(2) IN
  IF x.c # 0 \/ y.c = 3 \/ (y.c = 0 /\ Sgn(y.m) = 0) THEN acc.c = 3
  ELSE /\ acc.c = 0
       /\ y.c = 0 => /\ FCmp(FAbs(acc), FAbs(y)) < 0
                     /\ Mode = "small" => \E q \in -600..600 : FEq(FSub(x, acc), FMul(FInt(I(q)), y))
       /\ y.c # 0 => Same(acc, x)
       /\ Sgn(acc.m) = 0 \/ Sgn(acc.m) = Sgn(x.m)
ClampLaw == IsTake("Clamp") => IF A(1).c = 3 THEN acc.c = 3 ELSE /\ LeqV(A(2), acc) /\ LeqV(acc, A(3))
                                                                 /\ LeqV(A(2), A(1)) /\ LeqV(A(1), A(3)) => Same(acc, A(1))
                                                                 /\ Same(ClampV(acc, A(2), A(3)), acc)
ApproachLaw == IsTake("Approach") /\ A(1).c # 3 /\ A(2).c # 3 =>
  /\ LeqV(A(1), A(2)) => LeqV(A(1), acc) /\ LeqV(acc, A(2))
  /\ LeqV(A(2), A(1)) => LeqV(acc, A(1)) /\ LeqV(A(2), acc)
EqualLaw == IsTake("Equals") => LET e == EqualV(A(1), A(2), A(3), T) IN
  /\ e # {} /\ e = EqualV(A(2), A(1), A(3), T)
  /\ A(1).c = 0 /\ Same(A(1), A(2)) /\ A(3).c = 0 => e = {Sgn(A(3).m) >= 0}
\* the tolerances admit the formula evaluated step by step, and the endpoints
LerpLaw == Mode = "small" /\ IsTake("Clamp") => LET a == A(1)
                                                    b == A(2)
                                                    s == A(3) IN
  (a.c = 0 /\ b.c = 0 /\ s.c = 0 /\ LerpInRange(a, b, s, T)) =>
    LerpOk(ToFmt(FAdd(a, Round(FMul(s, Round(FSub(b, a), T)), T)), T), a, b, s, T)
AngleLaw == acc.c = 0 /\ n = 0 /\ ~Overflows(FMul(acc, FInt(I(64))), T) =>
              LET k == Round(FMul(PiF, FV(I(11930465), -31)), T) IN      \* pi / 180
              /\ Mode = "float" => ToRadianOk(ToFmt(FMul(acc, k), T), acc, T)
              /\ ~(\E j \in {3, -3} : Mode = "float" /\ Sgn(acc.m) # 0 /\ acc.e > -100 /\ ToRadianOk(Num(FAdd(Round(FMul(acc, k), T), FMul(FInt(I(j * 2)), Ulp(FMul(acc, k), T)))), acc, T))
Emitted == PrintT("@T " \o ToJson(act'))
ASSUME FCmp(PiF, FV(I(355), 0)) < 0 /\ FCmp(FMul(PiF, FInt(I(113))), FInt(I(355))) < 0 /\ FCmp(FInt(I(333)), FMul(PiF, FInt(I(106)))) < 0
ASSUME ConstOk("Pi", Num(FV(I(13176795), -22)), F32) /\ ~ConstOk("Pi", Num(FV(I(13176796), -22)), F32)
ASSUME ConstOk("Sqrt2", Num(FV(I(11863283), -23)), F32) /\ ~ConstOk("Sqrt2", Num(FV(I(11863282), -23)), F32)
=============================================================================
