--------------------------- MODULE Trace_EnumArr ---------------------------
EXTENDS EnumArr, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Has(e, f) == f \in DOMAIN e
Bool(b) == IF b THEN 1 ELSE 0
Arr(s) == [k \in Keys |-> s[k + 1]]
Diff(x, y) == x.a = y.a
Step(e) ==
    CASE e.op = "Write"  -> Write(e.o, e.k, e.v)
      [] e.op = "Fill"   -> Fill(e.o, e.v)
      [] e.op = "Set"    -> Set(e.o, Arr(e.m))
      [] e.op = "Copy"   -> Set(e.o, arr[e.p])
      [] e.op = "Swap"   -> Swap(e.o, e.p)
      [] e.op = "Point"  -> Point(e.i, e.o, IF e.end = 1 THEN n ELSE 0)
      \* pre: the moved iterator itself; post: what was before
      [] e.op = "Step"   -> Move(e.i, e.d) /\ IF e.post = 1 THEN e.ret = it[e.i].p ELSE e.ret = it[e.i].p + e.d /\ e.ref = 1
      [] e.op = "Move"   -> Move(e.i, e.d) /\ e.ret = it[e.i].p + e.d /\ e.ref = 1
      [] e.op = "Offset" -> Offset(e.j, e.i, e.d)
      [] e.op = "WriteAt" -> WriteAt(e.i, e.d, e.v) /\ e.key = it[e.i].p + e.d
      [] e.op = "Deref"  -> Can(e.i, e.d) /\ e.key = it[e.i].p + e.d /\ e.val = Deref(e.i, e.d) /\ e.ref = 1 /\ Look
      [] e.op = "Compare" -> LET x == it[e.i].p y == it[e.j].p IN
                             /\ it[e.i].a = it[e.j].a
                             /\ e.c = <<Bool(x = y), Bool(x # y), Bool(x < y), Bool(x <= y), Bool(x > y), Bool(x >= y)>>
                             /\ Look
      [] e.op = "Observe" ->
            /\ \A k \in 1..Len(e.fwd) : e.fwd[k] = Values(e.o)
            /\ \A k \in 1..Len(e.rev) : e.rev[k] = Rev(Values(e.o))
            /\ \A k \in 1..Len(e.keys) : e.keys[k] = [x \in 1..n |-> x - 1]
            /\ \A k \in 1..Len(e.size) : e.size[k] = n
            /\ e.front = Values(e.o)[1] /\ e.back = Values(e.o)[n]
            /\ e.cmp = <<Bool(arr[e.o] = arr[e.p]), Bool(arr[e.o] # arr[e.p]), Bool(LexLess(Values(e.o), Values(e.p)))>>
            /\ Look
      [] OTHER -> FALSE
Seen(e) == /\ Has(e, "s")  => e.s = [k \in 1..n |-> arr'[e.o][k - 1]]
           /\ Has(e, "s2") => e.s2 = [k \in 1..n |-> arr'[e.p][k - 1]]
           /\ Has(e, "pos") => e.pos = it'[e.i].p
           /\ Has(e, "pos2") => e.pos2 = it'[e.j].p
TInit == l = 1 /\ n = 1 /\ arr = [o \in Obj |-> (0 :> 0)] /\ it = [i \in Its |-> [a |-> 1, p |-> 0]]
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> n' = e.n /\ arr' = [o \in Obj |-> [k \in 0..(e.n - 1) |-> 0]] /\ it' = [i \in Its |-> [a |-> 1, p |-> 0]]
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED evars
              [] e.op = "Crash" -> FALSE
              [] OTHER -> Step(e) /\ Seen(e)
TSpec == TInit /\ [][TNext]_<<evars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
