--------------------------- MODULE Trace_Asserts ---------------------------
EXTENDS Asserts, Json, IOUtils, TLC
VARIABLES l, mode
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ rest = <<>> /\ env = [c \in Cond |-> FALSE] /\ on = FALSE /\ args = FALSE /\ log = <<>> /\ status = "done" /\ mode = Mode(TRUE, FALSE, FALSE)
\* one event is one run: its log, and how the process ended
RunOk(e) == LET v == [c \in Cond |-> e.env[c] = 1] o == Enabled(e.f, mode) r == Outcome(Prog[e.p], v, o, Form(e.f).args, <<>>) IN
  /\ e.log = [i \in 1..Len(r.log) |-> r.log[i]]
  /\ IF r.status = "done" THEN e.ended = "returned" /\ e.said = 0
     ELSE /\ e.ended = "killed" /\ e.said = 1
          /\ e.text = 1 /\ (Form(e.f).where => e.file = 1 /\ e.line = 1)
\* in a constant expression: an assertion that holds is nothing, one that does not hold is an error
ConstOk(e) == (e.constant = 1) = (~Enabled(e.f, mode) \/ e.holds = 1)
TStep(e) == CASE e.op = "Begin" -> mode' = Mode(e.ndebug = 1, e.enable = 1, e.never = 1) /\ UNCHANGED avars
              [] e.op = "End" -> l = Len(Trace) /\ UNCHANGED <<avars, mode>>
              [] e.op = "Run" -> RunOk(e) /\ UNCHANGED <<avars, mode>>
              [] e.op = "Const" -> ConstOk(e) /\ UNCHANGED <<avars, mode>>
              \* hints about branches and assumptions that hold change no value
              [] e.op = "Hint" -> e.got = HintValue(e.how, e.v) /\ UNCHANGED <<avars, mode>>
              [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ TStep(Ev)
TSpec == TInit /\ [][TNext]_<<avars, mode, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
