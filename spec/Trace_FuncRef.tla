--------------------------- MODULE Trace_FuncRef ---------------------------
EXTENDS FuncRef, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ FInit
State(e) == /\ \A r \in Refs : (e.bools[r + 1] = 1) = (tgt'[r] # Null)
            /\ \A c \in Call : e.acc[c + 1] = acc'[c]
            /\ e.strangers = 0
Step(e) ==
  CASE e.op = "Begin" -> /\ tgt' = [r \in Refs |-> Null] /\ acc' = [c \in Call |-> 0] /\ flip' = FALSE /\ last' = [out |-> "none"]
    [] e.op = "End" -> l = Len(Trace) /\ UNCHANGED fvars
    [] e.op = "Bind" -> Bind(e.r, e.c, e.m) /\ State(e)
    [] e.op = "BindRef" -> BindRef(e.r, e.n) /\ State(e)
    [] e.op = "Null" -> SetNull(e.r) /\ State(e)
    [] e.op = "Copy" -> Copy(e.r, e.s) /\ State(e)
    [] e.op = "Swap" -> Swap(e.r, e.s) /\ State(e)
    [] e.op = "SetAcc" -> SetAcc(e.c, e.v) /\ State(e)
    [] e.op = "Flip" -> Flip /\ State(e)
    [] e.op = "Invoke" -> /\ Invoke(e.r, e.x)
                          /\ e.out = last'.out /\ e.ran = <<last'.ran>>
                          /\ e.out = "value" => e.ret = last'.ret
                          /\ State(e)
    [] e.op = "Pass" -> /\ e.calls = 1 /\ e.got = e.v /\ e.ret = 3
                        /\ e.copies = PassCopies(e.param, e.given)
                        /\ (e.same = 1) = PassSame(e.param)
                        /\ (e.lvalue = 1) = (e.param \in {"lref", "cref"})
                        /\ (e.konst = 1) = (e.param = "cref")
                        /\ PassKeeps(e.param, e.given) => e.left = e.v
                        /\ UNCHANGED fvars
    [] e.op = "Result" -> e.got = e.v /\ e.same = 1 /\ e.copies = 0 /\ UNCHANGED fvars
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<fvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
