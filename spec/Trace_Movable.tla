--------------------------- MODULE Trace_Movable ---------------------------
EXTENDS Movable, Json, IOUtils, TLC
LeftValue == 0 - 1
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Has(e, f) == f \in DOMAIN e
Step(e) ==
    CASE e.op = "New"     -> New(e.o, e.v) /\ (Has(e, "arg") => e.arg = e.v)      \* lvalue arguments are left alone
      [] e.op = "Default" -> Default(e.o)
      [] e.op = "Copy"    -> CopyFrom(e.o, e.p)
      [] e.op = "Move"    -> e.copies = 0 /\ IF e.o = e.p THEN SelfMove(e.o) ELSE IF e.ctor = 1 THEN MoveNew(e.o, e.p) ELSE MoveAssign(e.o, e.p)
      [] e.op = "Take"    -> Take(e.o, e.ret)
      [] e.op = "Observe" -> e.vals = [k \in 1..Len(e.vals) |-> m[e.o]] /\ Look
      [] OTHER -> FALSE
Seen(e) == e.s = m'[e.o] /\ (Has(e, "p") => e.s2 = m'[e.p])
TInit == l = 1 /\ m = [o \in Obj |-> 0] /\ kind = "" /\ zero = 0
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> kind' = e.kind /\ zero' = e.zero /\ m' = [o \in Obj |-> IF e.kind = "value" THEN 0 ELSE e.zero]
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED mvars
              [] e.op = "Crash" -> FALSE
              [] OTHER -> Step(e) /\ Seen(e)
TSpec == TInit /\ [][TNext]_<<mvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
