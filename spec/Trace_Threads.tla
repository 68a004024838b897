--------------------------- MODULE Trace_Threads ---------------------------
(* Calls recorded from real threads: when each one started and returned, and *)
(* what it gave.  A report of the race detector is an event Crash.           *)
EXTENDS Threads, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
W(e) == e.w = 1
TInit == l = 1 /\ ThInit
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin"  -> call' = [t \in Thread |-> <<>>] /\ seen' = [o \in Obj |-> Nothing]
              [] e.op = "Start"  -> Start(e.t, e.o, W(e), e.k)
              [] e.op = "Return" -> Return(e.t, e.o, W(e), e.k, e.r)
              [] e.op = "End"    -> l = Len(Trace) /\ Busy = {} /\ UNCHANGED tvars
              [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<tvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
