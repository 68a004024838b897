--------------------------- MODULE Trace_IntMath ---------------------------
EXTENDS IntMath, Json, IOUtils, TLC
VARIABLES l, ty
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Call(f, a, b, c, r) == InContract(f, ty.w, ty.sg, a, b, c) /\ r = Val(f, ty.w, ty.sg, a, b, c)
TInit == l = 1 /\ ty = [w |-> 8, sg |-> FALSE]
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> ty' = [w |-> e.w, sg |-> e.sg = 1]
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED ty
              [] e.op = "Call"  -> Call(e.f, e.a, e.b, e.c, e.r) /\ UNCHANGED ty
              \* one function over many first arguments
              [] e.op = "Row"   -> /\ Len(e.a) = Len(e.r)
                                   /\ \A k \in 1..Len(e.a) : Call(e.f, I(e.a[k]), I(e.b), I(e.c), I(e.r[k]))
                                   /\ UNCHANGED ty
              [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<ty, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
