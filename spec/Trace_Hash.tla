----------------------------- MODULE Trace_Hash -----------------------------
EXTENDS Hash, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
All(q, x) == \A k \in 1..Len(q) : q[k] = x
Step(e) ==
    CASE e.op = "Append" -> Append1(e.m)
      [] e.op = "Clear"  -> Clear
      \* every way to hash the text, at run time and in constant evaluation
      [] e.op = "Hash"   -> /\ All(e.crc, CrcOut(crc)) /\ All(e.f32, f32) /\ All(e.f64, f64)
                            /\ Len(e.crc) > 0 /\ Len(e.f32) > 0 /\ Len(e.f64) > 0
                            /\ Look
      \* every way to hand the text to a string hash
      [] e.op = "StrHash" -> /\ \A k \in 2..Len(e.h) : e.h[k] = e.h[1]
                             /\ \A p \in seen : p[1] = text /\ p[2] = e.kind => p[3] = e.h[1]
                             /\ seen' = seen \cup {<<text, e.kind, e.h[1]>>}
                             /\ UNCHANGED <<text, crc, f32, f64>>
      \* containers keyed by text: stored once, found through every string type
      [] e.op = "Intern" -> /\ LET old == <<text, "key">> \in seen IN
                               /\ e.inserted = (IF old THEN 0 ELSE 1)
                               /\ All(e.before, IF old THEN 1 ELSE 0)
                            /\ All(e.after, 1)
                            /\ seen' = seen \cup {<<text, "key">>}
                            /\ UNCHANGED <<text, crc, f32, f64>>
      [] e.op = "Combine" -> e.r = Combine(e.seed, e.h) /\ Look
      [] e.op = "CombineAll" -> e.r = CombineAll(e.h) /\ Look
      [] OTHER -> FALSE
TInit == l = 1 /\ HInit
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> text' = <<>> /\ crc' = CrcInit /\ f32' = Fnv32Init /\ f64' = Fnv64Init /\ seen' = {}
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED hvars
              [] e.op = "Crash" -> FALSE
              [] OTHER -> Step(e)
TSpec == TInit /\ [][TNext]_<<hvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
