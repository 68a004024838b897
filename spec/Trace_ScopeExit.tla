-------------------------- MODULE Trace_ScopeExit --------------------------
EXTENDS ScopeExit, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
\* a callback told to throw does so exactly when it runs, and its exception reaches the caller
Thrown(e) == e.threw = (IF e.thr = 1 /\ fn[e.o] # 0 THEN 1 ELSE 0)
Step(e) ==
    CASE e.op = "New"   -> New(e.o, e.id) /\ e.calls = <<>>
      [] e.op = "Gone"  -> Gone(e.o, e.calls)
      [] e.op = "Call"  -> Call(e.o, e.calls) /\ Thrown(e)
      [] e.op = "Reset" -> Reset(e.o) /\ e.calls = <<>>
      [] e.op = "Move"  -> Thrown(e) /\ Move(e.o, e.p, e.calls, e.threw = 1)
      [] e.op = "Scope" -> Scope(e.n, e.calls)
      [] OTHER -> FALSE
TInit == l = 1 /\ fn = [o \in Obj |-> 0]
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> fn' = [o \in Obj |-> 0]
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED fn
              [] e.op = "Crash" -> FALSE
              [] OTHER -> Step(e)
TSpec == TInit /\ [][TNext]_<<fn, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
