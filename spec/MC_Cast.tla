------------------------------ MODULE MC_Cast ------------------------------
(* Boundary values of every integer type (and of floating-point types) in    *)
(* every type that has them, and casts to every type.                        *)
EXTENDS Cast, TLC, Json, FiniteSets
CONSTANTS Floats
VARIABLES init
IntTypes == {[k |-> "int", w |-> w, sg |-> s] : w \in {8, 16, 32, 64}, s \in BOOLEAN} \cup {[k |-> "int", w |-> 1, sg |-> FALSE]}
FltTypes == IF Floats THEN {[k |-> "flt", w |-> 32], [k |-> "flt", w |-> 64]} ELSE {}
Types == IntTypes \cup FltTypes
Ends == {MinOf(t.w, t.sg) : t \in IntTypes} \cup {MaxOf(t.w, t.sg) : t \in IntTypes}
IntValues == {Add(x, I(d)) : x \in Ends, d \in {-2, -1, 0, 1, 2}} \cup {TwoTo(24), Add(TwoTo(24), One), Add(TwoTo(53), One), Sub(TwoTo(31), I(64)), Sub(TwoTo(63), TwoTo(9))}
FltValues == {FV(x, 0) : x \in IntValues} \cup {FV(Add(Shl(x, 1), I(d)), -1) : x \in Ends, d \in {-1, 1}}
             \cup {MaxFinite(F32), MaxFinite(F64), FNeg(MaxFinite(F32)), FV(One, -149), FV(One, -1074), FV(One, 127), FV(One, 64), FV(One, -1),
                   FAdd(MaxFinite(F32), FV(One, 103)), FSub(MaxFinite(F32), FV(One, 79)), FV(I(3), -150)}
Specials == {[c |-> c, m |-> Zero, e |-> 0] : c \in {1, 2, 3}}
Values(t) == {v \in (IF t.k = "int" THEN {Num(x, 0) : x \in IntValues} ELSE {Num(f.m, f.e) : f \in FltValues} \cup Specials) : HasType(v, t)}
\* one representation of each number
Canon(v) == IF v.c # 0 \/ IsIntegral(v) = FALSE THEN v ELSE Num(ToInt(v), 0)
Init == \E t \in Types : \E v \in Values(t) : CInit(t, Canon(v)) /\ init = Canon(v)
Next == \E t \in Types : Cast(t) /\ UNCHANGED init
Spec == Init /\ [][Next]_<<reg, out, init>>
Emitted == PrintT("@T " \o ToJson([from |-> reg, to |-> IF out' = "value" THEN reg'.t ELSE reg.t, out |-> out']))
View == <<reg, out, init>>
\* what a chain of casts yields is the value it started from, unless it went through a floating-point type
TypeOK == HasType(reg.v, reg.t)
ValueKept == ~Floats => SameValue(reg.v, init)
NeverWrong == [][out' = "value" => HasType(reg'.v, reg'.t) /\ (reg'.t.k = "int" => SameValue(reg'.v, reg.v))]_<<reg, out, init>>
\* the assertion never refuses what the type has, and never lets anything else through
Exact == \A t \in IntTypes : Accepts(reg.v, reg.t, t) = HasType(reg.v, t)
==========================================================================
