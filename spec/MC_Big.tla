------------------------------- MODULE MC_Big -------------------------------
(* Big agrees with TLC's own integers wherever those can be used, and obeys  *)
(* the ring and division laws beyond.                                        *)
EXTENDS Big, TLC
Vals == {0, 1, 2, 3, 7, 12, 4095, 4096, 4097, 8191, 30000, 46340}
Ints == Vals \cup {-v : v \in Vals}
Huge == {TwoTo(31), TwoTo(63), Sub(TwoTo(64), One), Neg(TwoTo(63)), Add(TwoTo(36), I(5)), Mul(TwoTo(50), I(-3)), One, Zero, I(-1), I(4096)}
TQuo(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
VARIABLE x
Pairs == \A a \in Ints, b \in Ints :
           /\ Cmp(I(a), I(b)) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
           /\ Add(I(a), I(b)) = I(a + b) /\ Sub(I(a), I(b)) = I(a - b) /\ Mul(I(a), I(b)) = I(a * b)
           /\ b # 0 => /\ QuoT(I(a), I(b)) = I(TQuo(a, b)) /\ RemT(I(a), I(b)) = I(a - b * TQuo(a, b))
                       /\ RemF(I(a), I(b)) = Sub(I(a), Mul(I(b), I(IF b > 0 THEN a \div b ELSE (-a) \div (-b))))
Laws == \A a, b \in Huge :
           /\ Add(a, b) = Add(b, a) /\ Sub(Add(a, b), b) = a /\ Mul(a, b) = Mul(b, a)
           /\ \A c \in Huge : Mul(a, Add(b, c)) = Add(Mul(a, b), Mul(a, c)) /\ Mul(a, Mul(b, c)) = Mul(Mul(a, b), c)
           /\ b # Zero => /\ Add(Mul(QuoT(a, b), b), RemT(a, b)) = a /\ Lt(Abs(RemT(a, b)), Abs(b))
Powers == /\ \A k \in 0..70 : TwoTo(k) = Pow(I(2), k) /\ Log2(TwoTo(k)) = k /\ (k > 0 => Log2(Sub(TwoTo(k), One)) = k - 1)
          /\ \A k \in 0..70 : \A a \in Huge \cup {I(v) : v \in Ints} : Shl(a, k) = Mul(a, TwoTo(k)) /\ Shr(a, k) = QuoT(a, TwoTo(k))
          /\ MaxOf(8, TRUE) = I(127) /\ MinOf(16, TRUE) = I(-32768) /\ MaxOf(16, FALSE) = I(65535) /\ Pow(I(-3), 5) = I(-243) /\ Pow(I(0), 0) = One
ASSUME Pairs /\ Laws /\ Powers
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
