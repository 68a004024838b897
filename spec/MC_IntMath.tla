---------------------------- MODULE MC_IntMath ----------------------------
(* Every call on a small type, against characterisations in TLC's integers;  *)
(* every in-contract call is emitted for replay on the real types.           *)
EXTENDS IntMath, TLC, Json
CONSTANTS Wd, Sg, Emit
VARIABLES st
Lo == IF Sg THEN -(2 ^ (Wd - 1)) ELSE 0
Hi == IF Sg THEN 2 ^ (Wd - 1) - 1 ELSE 2 ^ Wd - 1
R == Lo..Hi
J(x) == IF Sgn(x) = 0 THEN 0 ELSE Sgn(x) * (LET m == Mag(x) IN IF Len(m) = 1 THEN m[1] ELSE m[1] + Base * m[2])
A1(f) == Arity(f)
Ok(f, a, b, c) == InContract(f, Wd, Sg, I(a), I(b), I(c))
V(f, a, b, c) == J(Val(f, Wd, Sg, I(a), I(b), I(c)))
\* a pending call, then its result
Init == \E f \in Fns : \E a \in R : \E b \in (IF A1(f) > 1 THEN R ELSE {0}) : \E c \in (IF A1(f) > 2 THEN R ELSE {0}) :
          /\ Ok(f, a, b, c)
          /\ st = [op |-> "Pending", f |-> f, a |-> a, b |-> b, c |-> c]
Next == /\ st.op = "Pending"
        /\ st' = [op |-> "Call", f |-> st.f, a |-> st.a, b |-> st.b, c |-> st.c, r |-> V(st.f, st.a, st.b, st.c)]
Spec == Init /\ [][Next]_st
Emitted == Emit => PrintT("@T " \o ToJson(st'))
Mag1(x) == IF x < 0 THEN -x ELSE x
Pows == {2 ^ k : k \in 0..12}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* characterisation of the result of a call, in TLC's own integers
Right(e) ==
  LET a == e.a b == e.b c == e.c r == e.r IN
  /\ Lo <= r /\ r <= Hi
  /\ CASE e.f \in {"Align", "AlignPow2"} -> r % b = 0 /\ r >= a /\ r - a < b
       [] e.f = "Approach" -> /\ (a <= b => a <= r /\ r <= b) /\ (b <= a => b <= r /\ r <= a)
                              /\ Mag1(r - a) = (IF Mag1(b - a) < c THEN Mag1(b - a) ELSE c)
       [] e.f = "Clamp" -> r \in b..c /\ \A x \in b..c : Mag1(r - a) <= Mag1(x - a)
       [] e.f \in {"NearestPow2", "RoundToPow2"} -> r = Least({p \in Pows : p >= a})
       [] e.f \in {"Log2", "Log2Pot"} -> IF a = 0 THEN r = 0 ELSE 2 ^ r <= a /\ a < 2 ^ (r + 1)
       [] e.f = "Pow" -> r = (IF b = 0 THEN 1 ELSE a ^ b)
       [] e.f = "IsPow2" -> r = (IF a \in Pows THEN 1 ELSE 0)
       [] e.f = "Mod" -> Mag1(r) < Mag1(b) /\ (a - r) % Mag1(b) = 0 /\ (r # 0 => (r < 0) = (a < 0))
       [] e.f = "MultiplyAdd" -> r = a * b + c
       [] e.f = "NumberEquals" -> r = (IF Mag1(a - b) <= c THEN 1 ELSE 0)
       [] e.f = "SameNumber" -> r = (IF a = b THEN 1 ELSE 0)
Characterised == st.op = "Call" => Right(st)
===========================================================================
