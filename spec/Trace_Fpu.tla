----------------------------- MODULE Trace_Fpu -----------------------------
EXTENDS Fpu, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Fmt(w) == IF w = 32 THEN F32 ELSE IF w = 64 THEN F64 ELSE F80
Bool(x) == x = 1
Call(e) ==
  LET a == e.a
      t == Fmt(e.w)
      r == e.r IN
  CASE e.fn = "IsFinite" -> Bool(r) = (a[1].c = 0)
    [] e.fn = "IsInfinity" -> Bool(r) = (a[1].c \in {1, 2})
    [] e.fn = "IsNaN" -> Bool(r) = (a[1].c = 3)
    [] e.fn = "Mod" -> Same(r, ModV(a[1], a[2]))
    [] e.fn = "Clamp" -> Same(r, ClampV(a[1], a[2], a[3]))
    [] e.fn = "Approach" -> Same(r, ApproachV(a[1], a[2], a[3], t))
    [] e.fn = "MultiplyAdd" -> IF a[1].c = 0 /\ a[2].c = 0 /\ a[3].c = 0 THEN \E v \in FmaV(a[1], a[2], a[3], t) \cup (IF Overflows(FMul(a[1], a[2]), t) THEN {r} ELSE {}) : Same(r, v)
                               ELSE (a[1].c = 3 \/ a[2].c = 3 \/ a[3].c = 3) => r.c = 3
    [] e.fn = "NumberEquals" -> Bool(r) \in EqualV(a[1], a[2], a[3], t)
    [] e.fn = "NumberEqualsDefault" -> Bool(r) \in EqualV(a[1], a[2], Epsilon(t), t)
    [] e.fn \in {"Lerp", "LerpOther"} -> LerpOk(r, a[1], a[2], a[3], t)
    [] e.fn \in {"LerpInt", "LerpLong"} -> LerpIntOk(r, a[1], a[2], a[3], t)
    [] e.fn = "DegreeToRadian" -> ToRadianOk(r, a[1], t)
    [] e.fn = "RadianToDegree" -> ToDegreeOk(r, a[1], t)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> TRUE
              [] e.op = "End" -> l = Len(Trace)
              [] e.op = "F" -> "r" \in DOMAIN e /\ Call(e)
              [] e.op = "Const" -> ConstOk(e.name, e.r, Fmt(e.w)) /\ Same(e.r, e.d)
              [] e.op = "IntConst" -> IntConstOk(e.name, e.r.m, e.w, e.sg = 1) /\ Same(e.r, e.d)
              [] e.op = "BitCount" -> e.r = e.w
              [] e.op = "TypeOf" -> e.bits = e.w /\ e.sg = (IF e.kind = "unsigned" THEN 0 ELSE 1) /\ e.integral = (IF e.kind = "float" THEN 0 ELSE 1)
              [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
