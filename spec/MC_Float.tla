------------------------------ MODULE MC_Float ------------------------------
(* Float on a small format, against the set of its numbers.                  *)
EXTENDS Float, TLC, FiniteSets
T == [p |-> 3, emin |-> -3, emax |-> 2]
\* every number of T in units of 2^-6: m * 2^(e + 6), |m| < 8
Num6 == {m * 2 ^ (e + 6) : m \in -7..7, e \in -3..2}
X(k) == FV(I(k), -6)
J(x) == IF Sgn(x) = 0 THEN 0 ELSE Sgn(x) * (LET m == Mag(x) IN IF Len(m) = 1 THEN m[1] ELSE m[1] + Base * m[2])
Abs1(k) == IF k < 0 THEN -k ELSE k
Top == 7 * 2 ^ 8
R6(k) == J(At(Round(X(k), T), -6))
\* even last digit, in the binade of n
Even(n) == n = 0 \/ LET q == IF Abs1(n) < 64 THEN 8 ELSE CHOOSE q \in {2 ^ j : j \in 3..8} : 4 * q <= Abs1(n) /\ Abs1(n) < 8 * q IN (Abs1(n) \div q) % 2 = 0
Nearest(k) == \A n \in Num6 : \/ Abs1(R6(k) - k) < Abs1(n - k)
                              \/ Abs1(R6(k) - k) = Abs1(n - k) /\ (n = R6(k) \/ Even(R6(k)))
VARIABLE k
Init == k = -Top
Next == k < Top /\ k' = k + 1
Spec == Init /\ [][Next]_k
RoundIsNearest == R6(k) \in Num6 /\ Nearest(k) /\ ~Overflows(X(k), T) /\ IsIn(X(k), T) = (k \in Num6)
Monotone == [][R6(k) <= R6(k')]_k
Integral == IsIntegral(X(k)) = (k % 64 = 0) /\ J(ToInt(X(k))) = (IF k < 0 THEN -((-k) \div 64) ELSE k \div 64)
Arithmetic == /\ FEq(FAdd(X(k), X(17)), X(k + 17)) /\ FEq(FMul(X(k), FV(I(3), 2)), X(12 * k))
              /\ \A n \in {-9, 0, 5, k} : FCmp(X(k), X(n)) = (IF k < n THEN -1 ELSE IF k = n THEN 0 ELSE 1)
============================================================================
