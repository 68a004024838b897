--------------------------- MODULE Trace_Result ---------------------------
(* Accepts a recorded execution on Result objects iff each call is a step.   *)
EXTENDS Result, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Has(e, f) == f \in DOMAIN e
R(k, x) == [k |-> k, x |-> x]
Step(e) ==
    CASE e.op = "New"    -> New(e.o, e.k, e.v) /\ (Has(e, "arg") => e.arg = e.argv)     \* lvalue arguments are left alone
      [] e.op = "Copy"   -> CopyFrom(e.o, e.p)
      [] e.op = "Move"   -> e.copies = 0 /\ MoveFrom(e.o, e.p, e.s2[2])
      [] e.op = "Mutate" -> Mutate(e.o, e.v)
      [] e.op = "Take"   -> e.copies = 0 /\ Take(e.o, e.ret, e.s[2])
      \* const lvalue: the result is left alone; rvalue: its payload may be taken
      [] e.op = "Map"    -> /\ IF e.void = 1 THEN MappedVoid(res[e.o], R(e.rk, e.rx), e.calls, e.arg)
                                             ELSE Mapped(res[e.o], R(e.rk, e.rx), e.calls, e.arg)
                            /\ IF e.rv = 1 THEN e.copies = 0 /\ Mutate(e.o, e.s[2]) ELSE Keep
      [] e.op = "Or"     -> /\ e.ret = Or(res[e.o], e.v)
                            /\ IF res[e.o].k = 1 \/ e.lv = 1 THEN e.arg = e.v ELSE TRUE
                            /\ IF e.rv = 1 /\ res[e.o].k = 1 THEN Mutate(e.o, e.s[2]) ELSE Keep
      [] e.op = "Fault"  -> Fault(e.how, e.o, e.p, e.canv = 1, e.cane = 1, e.threw = 1, e.calls, e.s[2])
      [] e.op = "Conv"   -> CopyFrom(e.o, e.p)
      \* NAZARA_TRY returns the error, and only the error
      [] e.op = "Try"    -> /\ IF res[e.o].k = 1 THEN e.passed = 1 /\ e.got = res[e.o].x /\ e.rk = 1
                                                 ELSE e.passed = 0 /\ e.rk = 0 /\ e.rx = res[e.o].x
                            /\ Keep
      [] e.op = "Observe" ->
            LET r == res[e.o] IN
            /\ e.ok = r.k /\ e.err = 1 - r.k /\ e.bool = r.k
            /\ IF r.k = 1 THEN \A n \in 1..Len(e.vals) : e.vals[n] = r.x ELSE e.vals = <<>>
            /\ IF r.k = 0 THEN \A n \in 1..Len(e.errs) : e.errs[n] = r.x ELSE e.errs = <<>>
            \* asking for the other alternative is refused
            /\ e.vthrow = (IF e.novalue = 1 THEN 0 ELSE 1 - r.k) /\ e.ethrow = r.k
            /\ e.expect = 1 - r.k /\ e.msg = 1
            /\ Keep
      [] OTHER -> FALSE
Seen(e) == /\ res'[e.o] = R(e.s[1], e.s[2])
           /\ Has(e, "p") => res'[e.p] = R(e.s2[1], e.s2[2])
TInit == l = 1 /\ res = [o \in Obj |-> V(0)]
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> res' = [o \in Obj |-> V(0)]
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED res
              [] e.op = "Crash" -> FALSE
              [] OTHER -> Step(e) /\ Seen(e)
TSpec == TInit /\ [][TNext]_<<res, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
