---------------------------- MODULE Trace_Sparse ----------------------------
EXTENDS Sparse, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Has(e, f) == f \in DOMAIN e
Bool(b) == IF b THEN 1 ELSE 0
Step(e) ==
    CASE e.op = "New"    -> Set(e.o, e.a, e.st)
      [] e.op = "Null"   -> Null(e.o)
      [] e.op = "SetPtr" -> SetPtr(e.o, e.a)
      [] e.op = "SetStride" -> SetStride(e.o, e.st)
      [] e.op = "Copy"   -> Copy(e.o, e.p)
      \* n strides away, by +, -, +=, -=, ++, --; the prefix and compound forms return the pointer itself
      [] e.op = "Offset" -> Offset(e.o, e.p, e.n) /\ (Has(e, "ref") => e.ref = 1) /\ (Has(e, "was") => e.was = sp[e.p].a)
      [] e.op = "Sub"    -> e.at = At(e.o, e.n) /\ Look
      [] e.op = "Diff"   -> Steps(e.o, e.p, e.ret) /\ Look
      [] e.op = "Compare" -> LET c == Cmp(sp[e.o].a, sp[e.p].a) IN
                             e.c = <<Bool(c = 0), Bool(c # 0), Bool(c < 0), Bool(c <= 0), Bool(c > 0), Bool(c >= 0)>> /\ Look
      \* the same element through a const or base pointer: off is the place of the base in the object
      [] e.op = "Convert" -> e.at = (IF sp[e.o].a = Zero THEN Zero ELSE Add(sp[e.o].a, e.off)) /\ e.st = sp[e.o].st /\ Look
      [] e.op = "Deref"  -> /\ \A k \in 1..Len(e.ats) : e.ats[k] = sp[e.o].a
                            /\ e.bool = Bool(sp[e.o].a # Zero)
                            /\ Has(e, "vals") => \A k \in 1..Len(e.vals) : e.vals[k] = e.stored
                            /\ Look
      [] OTHER -> FALSE
Seen(e) == e.s = <<sp'[e.o].a, sp'[e.o].st>>
TInit == l = 1 /\ sp = [o \in Obj |-> [a |-> Zero, st |-> Zero]]
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> sp' = [o \in Obj |-> [a |-> Zero, st |-> Zero]]
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED sp
              [] e.op = "Crash" -> FALSE
              [] OTHER -> Step(e) /\ Seen(e)
TSpec == TInit /\ [][TNext]_<<sp, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
