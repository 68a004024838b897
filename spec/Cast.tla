-------------------------------- MODULE Cast --------------------------------
(* Checked casts.  A register holds a value of some type; a cast to another  *)
(* type yields the same mathematical value when that type has it, and        *)
(* otherwise fails its assertion and yields nothing.                         *)
EXTENDS Float
\* types: integers [k, w, sg] and floating-point [k, w]; values: [c |-> 0, m, e] is m * 2^e, c > 0 an infinity or a NaN
Fmt(t) == IF t.w = 32 THEN F32 ELSE F64
Num(m, e) == [c |-> 0, m |-> m, e |-> e]
HasType(v, t) == IF t.k = "int" THEN v.c = 0 /\ IsIntegral(v) /\ Fits(ToInt(v), t.w, t.sg) ELSE v.c # 0 \/ IsIn(v, Fmt(t))
Accepts(v, f, t) ==
  IF t.k = "int" THEN v.c = 0 /\ IsIntegral(v) /\ Fits(ToInt(v), t.w, t.sg)
  ELSE IF f.k = "int" THEN TRUE                                     \* converted to the nearest, unchecked
  ELSE v.c = 0 /\ FCmp(FAbs(v), MaxFinite(Fmt(t))) <= 0
Target(v, t) == IF t.k = "int" THEN Num(ToInt(v), 0) ELSE LET r == Round(v, Fmt(t)) IN Num(r.m, r.e)
SameValue(a, b) == a.c = b.c /\ (a.c # 0 \/ FEq(a, b))
VARIABLES reg, out
CInit(ty, v) == reg = [t |-> ty, v |-> v] /\ out = "none"
Cast(t) == IF Accepts(reg.v, reg.t, t)
           THEN reg' = [t |-> t, v |-> Target(reg.v, t)] /\ out' = "value"
           ELSE UNCHANGED reg /\ out' = "assert"

\* pointers are unsigned integers of 64 bits
PtrToInt(addr, w, sg) == Fits(addr, w, sg)
IntToPtr(x) == Fits(x, 64, FALSE)

\* classes: A is the root, B and D derive from A, C from B, M from Side and B
Classes == {"A", "B", "C", "D", "M", "Side"}
Bases(c) == CASE c = "B" -> {"A"} [] c = "C" -> {"B"} [] c = "D" -> {"A"} [] c = "M" -> {"Side", "B"} [] OTHER -> {}
RECURSIVE Above(_)
Above(c) == {c} \cup UNION {Above(b) : b \in Bases(c)}
\* a pointer or reference to (a base of) an object of class dyn, seen as a `from`, cast to `to`
CastClass(dyn, from, to) == to \in Above(dyn)
============================================================================
