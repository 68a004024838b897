----------------------------- MODULE Trace_Cast -----------------------------
EXTENDS Cast, Json, IOUtils, TLC
VARIABLES l, chk
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Val(v) == [c |-> v.c, m |-> v.m, e |-> v.e]
\* in a build without assertions only what a cast accepts is constrained
Done(e, accepted) == IF accepted THEN e.out = "value" ELSE ~chk \/ e.out = "assert"
TInit == l = 1 /\ chk = TRUE /\ CInit([k |-> "int", w |-> 8, sg |-> FALSE], Num(Zero, 0))
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> chk' = (e.chk = 1) /\ UNCHANGED <<reg, out>>
              [] e.op = "End" -> l = Len(Trace) /\ UNCHANGED <<reg, out, chk>>
              [] e.op = "Cast" ->
                   /\ HasType(Val(e.v), e.f)
                   /\ LET ok == Accepts(Val(e.v), e.f, e.t) IN
                      /\ Done(e, ok)
                      /\ ok => SameValue(Val(e.r), Target(Val(e.v), e.t))
                      /\ "kept" \in DOMAIN e => e.kept = 1
                      /\ reg' = [t |-> e.f, v |-> Val(e.v)] /\ out' = e.out
                   /\ UNCHANGED chk
              [] e.op = "PtrToInt" -> /\ Done(e, PtrToInt(e.a, e.t.w, e.t.sg)) /\ (e.out = "value" => e.r = e.a)
                                      /\ UNCHANGED <<reg, chk>> /\ out' = e.out
              [] e.op = "IntToPtr" -> /\ Done(e, IntToPtr(e.v)) /\ (e.out = "value" => e.r = e.v)
                                      /\ UNCHANGED <<reg, chk>> /\ out' = e.out
              [] e.op = "Class" -> /\ Done(e, e.null = 1 \/ CastClass(e.dyn, e.from, e.to)) /\ (e.out = "value" => e.same = 1)
                                   /\ UNCHANGED <<reg, chk>> /\ out' = e.out
              [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<reg, out, l, chk>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
