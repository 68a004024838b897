---------------------------- MODULE Trace_Vec ----------------------------
(* Accepts a recorded execution of the sequence containers iff every call   *)
(* is a step of Vec (contents) and of Life (element lifetimes).             *)
(*   V01, V02: contents      V03: lifetimes      V04: both, calls that threw *)
EXTENDS Vec, Life, Json, IOUtils, TLC
VARIABLES l, live, addr
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
Contents == Prop # "V03"
Lifetime == Prop \in {"V03", "V04"}

Ev == Trace[l]
Has(e, f) == f \in DOMAIN e
Threw(e) == Has(e, "thr") /\ e.thr = 1

Step(e) ==
    CASE e.op = "New"         -> NewCap(e.o, IF cap[e.o] = Inf THEN Inf ELSE e.cap, <<>>)
      [] e.op = "NewV"        -> New(e.o, e.b)
      [] e.op = "NewA"        -> NewCap(e.o, e.cap, e.b)
      [] e.op = "Push"        -> Push(e.o, e.v) /\ e.ret = 1
      [] e.op = "PushAlias"   -> PushAlias(e.o, e.i) /\ e.ret = 1
      [] e.op = "Insert"      -> Insert(e.o, e.i, e.v) /\ e.ret = e.i
      [] e.op = "InsertAlias" -> InsertAlias(e.o, e.i, e.j) /\ e.ret = e.i
      [] e.op = "Erase"       -> Erase(e.o, e.i) /\ e.ret = e.i
      [] e.op = "EraseRange"  -> EraseRange(e.o, e.i, e.j) /\ e.ret = e.i
      [] e.op = "Pop"         -> Pop(e.o)
      [] e.op = "Clear"       -> Clear(e.o)
      [] e.op = "Resize"      -> Resize(e.o, e.n, e.v)
      [] e.op = "ResizeAlias" -> ResizeAlias(e.o, e.n, e.i)
      [] e.op = "Reserve"     -> Reserve(e.o, e.n) /\ e.cap >= Len(seq[e.o])
      [] e.op = "Set"         -> Set(e.o, e.i, e.v)
      [] e.op = "SetAll"      -> SetAll(e.o, e.v)
      [] e.op = "CopyFrom"    -> CopyFrom(e.o, e.p)
      [] e.op = "MoveFrom"    -> MoveFrom(e.o, e.p, e.st2)
      [] e.op = "StackMove"   -> StackMove(e.o, e.p)
      [] e.op = "SelfMove"    -> SelfMove(e.o, e.st)
      [] e.op = "StackSelfMove" -> StackSelfMove(e.o)
      [] e.op = "Macro"       -> /\ e.seen = e.b /\ e.size = e.n /\ e.init = Times(e.n, 0)
                                 /\ UNCHANGED vvars
      [] e.op = "Observe"     ->
            LET s == seq[e.o] r == Rev(s) n == Len(s) IN
            /\ e.size = n /\ e.empty = (IF n = 0 THEN 1 ELSE 0)
            /\ e.it = s /\ e.cit = s /\ e.ccit = s
            /\ e.rit = r /\ e.crit = r /\ e.ccrit = r
            /\ e.idx = s /\ e.cidx = s /\ e.dat = s /\ e.cdat = s
            /\ e.ends = (IF n = 0 THEN <<>> ELSE <<s[1], s[1], s[n], s[n]>>)
            /\ e.same = 1
            /\ Has(e, "cap") => IF cap[e.o] = Inf THEN e.cap >= n ELSE e.cap = cap[e.o]
            /\ IF cap[e.o] = Inf THEN e.max >= n ELSE e.max = cap[e.o]
            /\ UNCHANGED vvars
      [] OTHER -> FALSE

\* the states the implementation showed
Adopt(e) == LET s1 == [seq EXCEPT ![e.o] = e.st] IN
            /\ seq' = IF Has(e, "p") THEN [s1 EXCEPT ![e.p] = e.st2] ELSE s1
            /\ cap' = CASE e.op \in {"New", "NewA"} -> [cap EXCEPT ![e.o] = IF cap[e.o] = Inf THEN Inf ELSE e.cap]
                        [] e.op = "StackMove" -> [cap EXCEPT ![e.o] = cap[e.p], ![e.p] = 0]
                        [] OTHER -> cap
\* a call that threw: the named object holds some sequence, the others are untouched
Failed(e) == /\ e.fired = 1
             /\ Room(e.o, Len(e.st))
             /\ seq' = [seq EXCEPT ![e.o] = e.st]
             /\ cap' = IF e.op = "NewA" THEN [cap EXCEPT ![e.o] = e.cap] ELSE cap
\* what was seen after the call is what the specification says
Seen(e) == /\ seq'[e.o] = e.st
           /\ Has(e, "p") => seq'[e.p] = e.st2
           /\ Has(e, "thr") => e.thr = e.fired     \* an exception always reaches the caller
SameSize(e) == /\ Len(e.ad) = Len(e.st)
               /\ Has(e, "p") => Len(e.ad2) = Len(e.st2)
LifeOk(e) == /\ live' = Lives(live, e.ev)
             /\ addr' = IF Has(e, "p") THEN [addr EXCEPT ![e.o] = e.ad, ![e.p] = e.ad2] ELSE [addr EXCEPT ![e.o] = e.ad]
             /\ SameSize(e)
             /\ Exact(live', addr')

TInit == /\ l = 1 /\ live = {}
         /\ seq = [o \in Obj |-> <<>>] /\ cap = [o \in Obj |-> Inf] /\ addr = [o \in Obj |-> <<>>]
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> /\ seq' = [o \in Obj |-> <<>>]
                                   /\ cap' = [o \in Obj |-> IF e.caps[o] = -1 THEN Inf ELSE e.caps[o]]
                                   /\ live' = {} /\ addr' = [o \in Obj |-> <<>>]
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED <<seq, cap, live, addr>>
              [] e.op = "Crash" -> FALSE
              [] OTHER ->
                   /\ IF Threw(e) THEN Failed(e) ELSE IF Contents THEN Step(e) ELSE Adopt(e)
                   /\ Seen(e)
                   /\ IF Lifetime /\ Has(e, "ev") THEN LifeOk(e) ELSE UNCHANGED <<live, addr>>
TSpec == TInit /\ [][TNext]_<<seq, cap, live, addr, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
