--------------------------- MODULE Trace_Bitset ---------------------------
(* Accepts a recorded execution iff every call of the property under check   *)
(* is a step of Bitset; calls owned by another property are adopted.         *)
EXTENDS Bitset, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

Own(op) == CASE op \in {"Fill", "Resize", "Clear", "Reserve", "Flip", "Reverse", "SetAll", "Set1", "USet", "SetBlock",
                        "Shl", "Shr", "ShlOf", "ShrOf", "NotOf", "And", "Or", "Xor", "Not", "Copy", "Move", "Swap", "Bit"} -> "B01"
             [] op \in {"Observe", "Intersects"} -> "B02"
             [] op = "Compare" -> "B03"
             [] OTHER -> "B04"

Bool(v) == IF v THEN 1 ELSE 0
Ev == Trace[l]
Has(f) == f \in DOMAIN Ev

\* the step allowed by the specification for the event e
Step(e) ==
    CASE e.op = "Fill"     -> Fill(e.o, e.n, e.v)
      [] e.op = "Resize"   -> Resize(e.o, e.n, e.v)
      [] e.op = "Clear"    -> Clear(e.o)
      [] e.op = "Reserve"  -> Reserve(e.o)
      [] e.op = "Flip"     -> Flip(e.o)
      [] e.op = "Reverse"  -> Reverse(e.o)
      [] e.op = "SetAll"   -> SetAll(e.o, e.v)
      [] e.op = "Set1"     -> Set1(e.o, e.i, e.v)
      [] e.op = "USet"     -> USet(e.o, e.i, e.v)
      [] e.op = "SetBlock" -> SetBlock(e.o, e.i * e.bpb, e.w)
      [] e.op = "Shl"      -> Shl(e.o, e.n)
      [] e.op = "Shr"      -> Shr(e.o, e.n)
      [] e.op = "ShlOf"    -> ShlOf(e.o, e.p, e.n)
      [] e.op = "ShrOf"    -> ShrOf(e.o, e.p, e.n)
      [] e.op = "NotOf"    -> Not(e.o, e.p)
      [] e.op = "Not"      -> Not(e.o, e.p)
      [] e.op = "And"      -> And(e.o, e.p, e.q)
      [] e.op = "Or"       -> Or(e.o, e.p, e.q)
      [] e.op = "Xor"      -> Xor(e.o, e.p, e.q)
      [] e.op = "Copy"     -> Copy(e.o, e.p)
      [] e.op = "Move"     -> MoveTo(e.o, e.p)
      [] e.op = "Swap"     -> Swap(e.o, e.p)
      [] e.op = "Bit"      -> /\ BitOp(e.o, e.i, e.j, e.k, e.v)
                              /\ e.r = BitOpVal(bs[e.o], e.i, e.j, e.k, e.v)
      [] e.op = "Observe"  ->
            LET b == bs[e.o] ones == BOnes(b) IN
            /\ e.size = Len(b)
            /\ e.count = Count(b)
            /\ e.first = FindFirst(b)
            /\ e.capok = 1
            /\ e.bc = (Len(b) + e.bpb - 1) \div e.bpb
            /\ e.all = Bool(TestAll(b))
            /\ e.any = Bool(TestAny(b))
            /\ e.none = Bool(~TestAny(b))
            /\ e.next = ones /\ e.iter = ones /\ e.post = ones
            /\ e.idx = b
            /\ e.unb = BResize(b, Len(b) + 9, 0)
            /\ e.blocks = BResize(b, e.bc * e.bpb, 0)
            /\ Len(e.fn) = Len(e.fa)
            /\ Len(b) <= 2500 => e.fa = [i \in 1..Len(b) |-> i - 1]
            /\ \A k \in 1..Len(e.fa) : e.fn[k] = FindNext(b, e.fa[k])
            /\ e.str = BRev(b) /\ e.os = BRev(b)
            /\ UNCHANGED bs
      [] e.op = "Intersects" -> e.r = Bool(Intersects(bs[e.o], bs[e.p])) /\ UNCHANGED bs
      [] e.op = "Compare"  ->
            LET a == bs[e.o] b == bs[e.p] IN
            /\ e.eq = Bool(Equal(a, b)) /\ e.ne = Bool(~Equal(a, b))
            /\ e.lt = Bool(Less(a, b)) /\ e.ge = Bool(~Less(a, b))
            /\ e.gt = Bool(Less(b, a)) /\ e.le = Bool(~Less(b, a))
            /\ UNCHANGED bs
      [] e.op = "Str"      -> Str(e.o, e.b)
      [] e.op = "Append"   -> AppendBits(e.o, e.src, e.n)
      [] e.op = "Write"    -> /\ Write(e.o, e.src, e.off, e.n)
                              /\ e.hr = 1 => /\ e.rb = (e.off + e.n) \div 8
                                             /\ e.ri = (e.off + e.n) % 8
      [] e.op = "FromPtr"  -> /\ FromPtr(e.o, e.src, e.n)
                              /\ e.hr = 1 => /\ e.rb = e.n \div 8
                                             /\ e.ri = e.n % 8
      [] e.op = "FromInt"  -> FromInt(e.o, e.src, Len(e.st))
      [] e.op = "ToInt"    -> e.r = BResize(bs[e.o], Len(e.r), 0) /\ Len(bs[e.o]) <= Len(e.r) /\ UNCHANGED bs
      [] e.op = "ToStr"    -> e.str = BRev(bs[e.o]) /\ UNCHANGED bs
      [] OTHER -> FALSE

\* what the implementation showed after the call
Seen(e) == /\ bs'[e.o] = e.st /\ e.x = 0
           /\ Has("p") => bs'[e.p] = e.st2 /\ e.x2 = 0
           /\ Has("q") => bs'[e.q] = e.st3 /\ e.x3 = 0
Adopt(e) == LET b1 == [bs EXCEPT ![e.o] = e.st]
                b2 == IF Has("p") THEN [b1 EXCEPT ![e.p] = e.st2] ELSE b1
            IN bs' = IF Has("q") THEN [b2 EXCEPT ![e.q] = e.st3] ELSE b2

TInit == BsInit /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> bs' = [o \in Obj |-> <<>>]
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED bs
              [] e.op = "Crash" -> Own(e.dop) # Prop /\ UNCHANGED bs
              [] OTHER -> IF Own(e.op) = Prop THEN Step(e) /\ Seen(e) ELSE Adopt(e)
TSpec == TInit /\ [][TNext]_<<bs, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
