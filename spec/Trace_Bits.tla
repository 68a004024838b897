----------------------------- MODULE Trace_Bits -----------------------------
EXTENDS Bits, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Step(e) ==
    CASE e.op = "Load"    -> Load(e.v) /\ Len(e.v) = W
      [] e.op = "Set"     -> SetB(e.k)
      [] e.op = "Clear"   -> ClrB(e.k)
      [] e.op = "Toggle"  -> TogB(e.k)
      [] e.op = "Asr"     -> Asr(e.k)
      [] e.op = "Reverse" -> Rev
      [] e.op = "Swap"    -> Swap
      \* a little-endian host: conversions from and to big endian swap, the others do nothing
      [] e.op = "Endian"  -> e.be = SwapOf(v) /\ e.hbe = SwapOf(v) /\ e.le = v /\ e.hle = v /\ Look
      [] e.op = "Look"    -> /\ e.count = BCount(v) /\ e.first = FirstOf(v) /\ e.last = LastOf(v)
                             /\ e.tests = v /\ Look
      [] e.op = "SwapBuf" -> e.after = SwapRange(e.before, e.off, e.n) /\ Look
      [] OTHER -> FALSE
TInit == l = 1 /\ v = <<0>> /\ sg = FALSE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> v' = BZeros(e.w) /\ sg' = (e.sg = 1)
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED bvars
              [] e.op = "Crash" -> FALSE
              [] OTHER -> Step(e) /\ v' = e.v
TSpec == TInit /\ [][TNext]_<<bvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
