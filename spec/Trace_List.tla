----------------------------- MODULE Trace_List -----------------------------
EXTENDS List, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ LInit
Answer(e) == ans' = e.ret
Step(e) ==
  CASE e.op = "Begin" -> Become(<<>>)
    [] e.op = "End" -> l = Len(Trace) /\ UNCHANGED lvars
    [] e.op = "Start" -> Become(e.from)                         \* the program takes another list
    [] e.op = "Append" -> OpAppend(e.t) /\ Answer(e)
    [] e.op = "Prepend" -> OpPrepend(e.t) /\ Answer(e)
    [] e.op = "Concat" -> OpConcat(e.s) /\ Answer(e)
    [] e.op = "ConcatTo" -> OpConcatTo(e.s) /\ Answer(e)
    [] e.op = "Remove" -> OpRemove(e.t) /\ Answer(e)
    [] e.op = "Unique" -> OpUnique /\ Answer(e)
    [] e.op = "Transform" -> OpTransform(e.f) /\ Answer(e)
    [] e.op = "Instantiate" -> OpInstantiate /\ Answer(e)
    [] e.op = "At" -> OpAt(e.i) /\ Answer(e)
    [] e.op = "Find" -> OpFind(e.t) /\ Answer(e)
    [] e.op = "Has" -> OpHas(e.t) /\ ans' = (e.ret = 1)
    [] e.op = "Size" -> OpSize /\ Answer(e)
    [] e.op = "Empty" -> OpEmpty /\ ans' = (e.ret = 1)
    [] e.op = "Apply" -> OpApply(e.v) /\ Answer(e) /\ e.left = e.v
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<lvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
