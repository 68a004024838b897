---------------------------- MODULE Trace_Utf8 ----------------------------
EXTENDS Utf8, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ UInit
Step(e) ==
  CASE e.op = "Begin" -> txt' = <<>> /\ pth' = <<>>
    [] e.op = "End" -> l = Len(Trace) /\ UNCHANGED uvars
    [] e.op = "Hold" -> Valid(e.s) /\ Hold(e.s)
    [] e.op = "Convert" -> /\ Convert(e.form, e.r)
                           /\ e.src = txt                          \* the source keeps its text
                           /\ e.kind = "view" => e.same = 1        \* and is what a view refers to
                           /\ e.kind = "own" => e.again = e.r      \* a string owns its characters
    [] e.op = "MakePath" -> MakePath /\ e.native = pth'
    [] e.op = "JoinPath" -> JoinPath /\ e.native = pth'
    [] e.op = "PathText" -> PathText(e.r) /\ e.back = 1 /\ e.native = pth
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Ev)
TSpec == TInit /\ [][TNext]_<<uvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
