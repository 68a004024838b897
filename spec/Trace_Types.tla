---------------------------- MODULE Trace_Types ----------------------------
EXTENDS Types, Json, IOUtils
VARIABLES l, types
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Of(id) == types[id + 1]
\* the type an action makes
Made(e) == LET a == e.act IN
  IF a.op = "Base" THEN CHOOSE b \in Bases \cup {IntT, Bar} : Name(b) = a.name
  ELSE IF a.op = "Qual" THEN Qual(Of(e.from), a.c, a.v, a.ref, a.nx)
  ELSE (CHOOSE s \in Steps1(Of(e.from)) : s.act.op = a.op).to
AllowedStep(e) == IF e.act.op = "Base" THEN TRUE ELSE \E s \in Steps1(Of(e.from)) : s.act.op = e.act.op
NamesOf(ts) == [i \in DOMAIN ts |-> Name(ts[i])]
IdNames(ids) == [i \in DOMAIN ids |-> Of(ids[i])]
TraitsOk(e, f) == /\ e.count = Len(f.ps) /\ e.ret = Name(f.of) /\ e.types = NamesOf(f.ps) /\ e.args = NamesOf(f.ps)
                  /\ e.func = Name(Plain(f))
TInit == l = 1 /\ types = <<>>
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> types' = <<>>
              [] e.op = "End" -> l = Len(Trace) /\ UNCHANGED types
              [] e.op = "Make" ->
                   /\ AllowedStep(e)
                   /\ LET x == Made(e) IN
                      /\ e.id = Len(types)
                      /\ types' = Append(types, x)
                      /\ e.own = Name(x)
                      /\ e.name = Name(x) /\ e.steady = 1
                      /\ e.rmcvref = Name(RemoveCvRef(x))
                      /\ e.functor = (IF IsFunctor(x) THEN 1 ELSE 0)
                      /\ e.traits = (IF HasTraits(x) THEN 1 ELSE 0)
                      /\ HasTraits(x) => TraitsOk(e, FunctionOf(x))
                      /\ e.whole = (IF ~IsRef(x) /\ CanPtr(x) THEN 1 ELSE 0)
                      /\ e.whole = 1 => e.complete = (IF Complete(x) THEN 1 ELSE 0) /\ e.pointer = Name(Ptr(x))
                      /\ ("pointed" \in DOMAIN e) = (x.k = "p")
                      /\ x.k = "p" => e.pointed = Name(x.of)
                      /\ e.lazyvoid = 1 /\ e.never = 0
                      /\ e.tag = Name(x)
              [] e.op = "FunctionPtr" -> e.r = Name(Ptr(Of(e.id))) /\ UNCHANGED types
              [] e.op = "Functor" -> LET f == Of(e.f) IN
                                     e.functor = (IF IsFunctor([k |-> "call", of |-> f]) THEN 1 ELSE 0) /\ TraitsOk(e, f) /\ UNCHANGED types
              [] e.op = "Resolve" ->
                   /\ UNCHANGED types
                   /\ LET fs == IdNames(e.fs)
                          r == Resolve(fs, [i \in DOMAIN e.args |-> Adjust(Of(e.args[i]))]) IN
                      /\ \E i \in r : r = {i} /\ e.r = Name(PointerTo(e.cls, fs[i]))
              [] e.op = "Hidden" -> e.allowed = (IF Hides(Of(e.t), IdNames(e.as)) THEN 0 ELSE 1) /\ UNCHANGED types
              [] e.op = "First" -> e.r = (IF e.as # <<>> /\ Of(e.t) = Of(e.as[1]) THEN 1 ELSE 0) /\ UNCHANGED types
              [] e.op = "Values" -> e.r = ValueCount(e.kind, e.last) /\ UNCHANGED types
              [] e.op = "Call" -> e.r = e.x /\ UNCHANGED types
              [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<l, types>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
