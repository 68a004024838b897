----------------------------- MODULE Trace_Mem -----------------------------
EXTENDS Mem, Json, IOUtils, TLC
VARIABLES l, chk
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
TInit == l = 1 /\ chk = TRUE /\ MInit
State(e) == /\ \A f \in Field : e.fld[f + 1] = fld'[f]
            /\ e.guard = 0
            /\ {<<e.map[i][1], e.map[i][2]>> : i \in 1..Len(e.map)} = map'
            /\ \A s \in Slots : e.slot[s + 1] = slot'[s].id /\ e.cls[s + 1] = slot'[s].cls
            /\ e.right = 1
            /\ e.dead = dead'
            /\ \A c \in Cell : e.cell[c + 1] = cell'[c]
            /\ e.alive = Cardinality({c \in Cell : cell'[c] # NoVal})
            /\ e.copies = 0
Step(e) ==
  CASE e.op = "Begin" -> /\ fld' = [f \in Field |-> 0] /\ map' = {} /\ slot' = [s \in Slots |-> Nobody] /\ dead' = <<>> /\ made' = 0
                         /\ cell' = [c \in Cell |-> NoVal] /\ out' = NoVal
    [] e.op = "End" -> l = Len(Trace) /\ UNCHANGED mvars
    [] e.op = "ReadField" -> ReadField(e.f) /\ e.ret = out' /\ e.same = 1 /\ e.off = e.real /\ State(e)
    [] e.op = "WriteField" -> WriteField(e.f, e.v) /\ e.off = e.real /\ State(e)
    [] e.op = "SetKey" -> SetKey(e.k, e.v) /\ State(e)
    [] e.op = "Erase" -> Erase(e.k) /\ State(e)
    [] e.op = "Retrieve" -> Retrieve(e.k) /\ e.ret = out' /\ e.same = 1 /\ State(e)
    [] e.op = "RetrieveSet" -> RetrieveSet(e.k, e.v) /\ e.same = 1 /\ State(e)
    [] e.op = "RetrieveFails" -> RetrieveFails(e.k) /\ (chk => e.out = "assert") /\ State(e)
    [] e.op = "New" -> New(e.s, e.c) /\ State(e)
    [] e.op = "Reset" -> Reset(e.s) /\ State(e)
    [] e.op = "Cast" -> Cast(e.s, e.t) /\ State(e)
    [] e.op = "Construct" -> Construct(e.c, e.v) /\ e.same = 1 /\ e.forwarded = 1 /\ State(e)
    [] e.op = "Destroy" -> Destroy(e.c) /\ State(e)
    [] e.op = "DestroyNull" -> DestroyNull /\ State(e)
    [] e.op = "BitCast" -> e.r = e.in /\ e.src = e.in /\ UNCHANGED mvars
    [] e.op = "CountOf" -> e.ret = e.n /\ UNCHANGED mvars
    [] e.op = "Underlying" -> e.ret = e.v /\ e.type = 1 /\ UNCHANGED mvars
    [] OTHER -> FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Ev) /\ chk' = IF Ev.op = "Begin" THEN Ev.chk = 1 ELSE chk
TSpec == TInit /\ [][TNext]_<<mvars, l, chk>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
