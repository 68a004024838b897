---------------------------- MODULE Trace_Flags ----------------------------
EXTENDS Flags, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Set(q) == {q[k] : k \in 1..Len(q)}
Bool(b) == IF b THEN 1 ELSE 0
\* operands: a flag set or an enumerator
X(e) == IF e.how \in {0, 1} THEN fs[e.a] ELSE {e.k}
Y(e) == CASE e.how \in {0, 2} -> fs[e.b] [] e.how = 1 -> {e.k} [] OTHER -> {e.j}
Y1(e) == IF e.how = 0 THEN fs[e.a] ELSE {e.k}
Step(e) ==
    CASE e.op = "New"   -> Put(e.o, Set(e.m))
      [] e.op = "Bin"   -> Bin(e.o, e.f, X(e), Y(e))
      [] e.op = "Self"  -> Bin(e.o, e.f, fs[e.o], Y1(e)) /\ e.ref = 1
      [] e.op = "Compl" -> Compl(e.o, Y1(e))
      [] e.op = "Clear" -> Put(e.o, {})
      [] e.op = "Test"  -> /\ e.ret = Bool(Test(fs[e.o], Y1(e)))
                           /\ e.eq = Bool(fs[e.o] = Y1(e)) /\ e.ne = 1 - e.eq
                           /\ (fs[e.o] = Y1(e)) => e.hash = 1
                           /\ Look
      [] e.op = "Intern" -> Intern(fs[e.o], e.ins = 1) /\ e.found = 1 /\ e.size = Cardinality(known')
      [] e.op = "Observe" ->
           /\ \A k \in 1..Len(e.counts) : e.counts[k] = Cardinality(fs[e.o])
           /\ e.bool = Bool(fs[e.o] # {})
           /\ \A k \in 1..Len(e.iter) : e.iter[k] = Asc(fs[e.o])
           /\ \A k \in 1..Len(e.masks) : e.masks[k] = e.iter[1]
           /\ Look
      \* the same operators in constant evaluation
      [] e.op = "Const" ->
           /\ Set(e.flag) = {e.k} /\ Set(e.or) = {e.k, e.j} /\ Set(e.and) = {e.k} \cap {e.j} /\ Set(e.xor) = Sym({e.k}, {e.j})
           /\ Set(e.not) = U \ {e.k} /\ Set(e.all) = U /\ Set(e.chain) = Sym({e.k}, U \ {e.j}) /\ e.test = Bool(e.k = e.j)
           /\ Look
      [] OTHER -> FALSE
Seen(e) == /\ {} = fs'[e.o] \ Set(e.s) /\ Asc(fs'[e.o]) = e.s
TInit == l = 1 /\ fs = [o \in Obj |-> {}] /\ n = 1 /\ known = {}
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> n' = e.n /\ fs' = [o \in Obj |-> {}] /\ known' = {}
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED fvars
              [] e.op = "Crash" -> FALSE
              [] OTHER -> Step(e) /\ Seen(e)
TSpec == TInit /\ [][TNext]_<<fvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
