---------------------------- MODULE Trace_Pimpl ----------------------------
EXTENDS Pimpl, Life, Json, IOUtils, TLC
VARIABLES l, live
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
MovedFrom == -1       \* what the driver's objects leave behind when they are moved from
Has(e, f) == f \in DOMAIN e
\* s = <<has, value, place>>
Step(e) ==
    CASE e.op = "New"     -> New(e.o, e.k, e.v, e.s[3])
      [] e.op = "Emplace" -> IF e.threw = 1 THEN ~inline /\ has[e.o] = 0 /\ UNCHANGED pvars ELSE Emplace(e.o, e.v, e.s[3])
      [] e.op = "NewFailed" -> BornFailed(e.o)
      [] e.op = "Reset"   -> Reset(e.o)
      [] e.op = "Assign"  -> Assign(e.o, e.v)
      [] e.op = "Gone"    -> Gone(e.o)
      [] e.op = "Copy" /\ e.threw = 1 -> IF e.ctor = 1 THEN BornFailed(e.o) ELSE CopyFailed(e.o, e.p, e.s[3])
      [] e.op = "Copy"    -> IF e.o = e.p THEN CopySelf(e.o, e.s[3]) ELSE Copy(e.o, e.p, e.s[3])
      [] e.op = "Move"    -> IF e.o = e.p THEN MoveSelf(e.o)
                             ELSE IF inline THEN MoveInline(e.o, e.p, MovedFrom)
                             ELSE \E w \in BOOLEAN : (e.ctor = 1 => ~w) /\ MoveHeap(e.o, e.p, w)
      [] e.op = "Observe" -> /\ e.hv = has[e.o] /\ e.bool = has[e.o]
                             /\ IF has[e.o] = 1 THEN e.vals = [k \in 1..Len(e.vals) |-> x[e.o]] /\ Len(e.vals) > 0 ELSE e.vals = <<>>
                             /\ e.same = 1
                             /\ UNCHANGED pvars
      [] OTHER -> FALSE
Seen(e) == /\ e.s = <<has'[e.o], x'[e.o], at'[e.o]>>
           /\ Has(e, "p") => e.s2 = <<has'[e.p], x'[e.p], at'[e.p]>>
LifeOk(e) == live' = Lives(live, e.ev) /\ live' # Bad /\ live' = Owned'
TInit == l = 1 /\ has = [o \in Obj |-> 0] /\ x = [o \in Obj |-> 0] /\ at = [o \in Obj |-> Unused] /\ inline = FALSE /\ live = {}
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> /\ inline' = (e.inline = 1) /\ has' = [o \in Obj |-> 0] /\ x' = [o \in Obj |-> 0] /\ at' = [o \in Obj |-> Unused]
                                   /\ live' = {}
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED <<has, x, at, inline, live>>
              [] e.op = "Crash" -> FALSE
              [] OTHER -> Step(e) /\ Seen(e) /\ PimplOK' /\ LifeOk(e)
TSpec == TInit /\ [][TNext]_<<has, x, at, inline, live, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
