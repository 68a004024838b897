--------------------------- MODULE Trace_Signal ---------------------------
(* Accepts a recorded execution of signals, connections and guards iff every *)
(* event is a step of Signal.                                                *)
EXTENDS Signal, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Step(e) ==
    CASE e.op = "HConnect" -> HConnect(e.s, e.h, e.id)
      [] e.op = "GConnect" -> GConnect(e.s, e.g, e.id)
      [] e.op = "HDisc"  -> HDisc(e.h)
      [] e.op = "GDisc"  -> GDisc(e.g)
      [] e.op = "HCopy"  -> HCopy(e.h, e.k)
      [] e.op = "HMove"  -> HMove(e.h, e.k)
      [] e.op = "HFromG" -> HFromG(e.h, e.g)
      [] e.op = "GFromH" -> GFromH(e.g, e.h, e.how = 1)
      [] e.op = "GMove"  -> GMove(e.g, e.k)
      [] e.op = "GSelf"  -> GSelf(e.g)
      [] e.op = "GGone"  -> GGone(e.g)
      [] e.op = "SClear" -> SClear(e.s)
      [] e.op = "SGone"  -> SGone(e.s)
      [] e.op = "SCopy"  -> SCopy(e.s, e.p)
      [] e.op = "SMove"  -> SMove(e.s, e.p)
      [] e.op = "Emit"   -> Emit(e.s, e.v)
      \* the arguments arrived as emitted: text, and the emitter's own variable
      [] e.op = "Call"   -> Call(e.id, e.v) /\ e.ref = 1 /\ e.ok = 1
      [] e.op = "Return" -> Return(e.id) /\ e.ok = 1
      [] e.op = "Throw"  -> Throw(e.id) /\ e.ok = 1
      [] e.op = "EmitEnd" -> EmitEnd(e.threw = 1)
      [] e.op = "Observe" -> UNCHANGED svars
      [] OTHER -> FALSE
B(x) == IF x THEN 1 ELSE 0
Seen(e) == /\ \A h \in Hnds : e.hc[h] = B(hnd'[h] \in Alive')
           /\ \A g \in Grds : e.gc[g] = B(grd'[g] \in Alive')
TInit == l = 1 /\ SInit
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> conn' = [s \in Sigs |-> {}] /\ hnd' = [h \in Hnds |-> 0] /\ grd' = [g \in Grds |-> 0] /\ em' = <<>>
              [] e.op = "End"   -> l = Len(Trace) /\ em = <<>> /\ UNCHANGED svars
              [] e.op = "Crash" -> FALSE
              [] OTHER -> Step(e) /\ Seen(e)
TSpec == TInit /\ [][TNext]_<<svars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
