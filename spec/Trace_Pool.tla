---------------------------- MODULE Trace_Pool ----------------------------
(* Accepts a recorded execution of memory pools iff every call is a step of  *)
(* Pool.  M01 also checks everything the pool can be asked; M02 also replays  *)
(* the element constructions and destructions through Life.                  *)
EXTENDS Pool, Life, Json, IOUtils, TLC
RawValue == 0 - 5
VARIABLES l, live
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
Ev == Trace[l]
Has(e, f) == f \in DOMAIN e

Step(e) ==
    CASE e.op = "New"     -> NewPool(e.o, e.n)
      [] e.op = "Alloc"   -> Alloc(e.o, e.i, e.a, e.v)
      [] e.op = "AllocFailed" -> AllocFailed(e.o)
      [] e.op = "AllocNested" -> AllocNested(e.o, e.i, e.a, e.v, e.j, e.b, e.w)
      [] e.op = "Construct"  -> Construct(e.o, e.i, e.v)
      [] e.op = "Assign"  -> Assign(e.o, e.i, e.v)
      [] e.op = "Free"    -> Free(e.o, {e.i}) /\ (e.how = 0 => val[e.o][e.i] # Raw)
      [] e.op = "FreeNested" -> Free(e.o, {e.i, e.j})
      [] e.op = "FreeAlloc" -> FreeAlloc(e.o, e.i, e.j, e.b, e.w)
      [] e.op = "Reset"   -> Reset(e.o)
      [] e.op = "Clear"   -> Clear(e.o)
      [] e.op = "Gone"    -> Clear(e.o)
      [] e.op = "Move"    -> MovePool(e.o, e.p, e.S[2].nb)
      [] e.op = "MoveSelf" -> MoveSelf(e.o)
      [] e.op = "Foreign" -> e.ret = [k \in 1..Len(e.ret) |-> -1] /\ UNCHANGED pvars
      [] e.op = "Observe" -> UNCHANGED pvars
      [] OTHER -> FALSE

\* what pool o must answer, given the entries in ascending order
Seen(s) == LET o == s.o n == Cardinality(DOMAIN val'[o]) IN
    /\ Len(s.idx) = n
    /\ \A k \in 1..n : /\ s.idx[k] \in DOMAIN val'[o]
                       /\ s.va[k] = val'[o][s.idx[k]]
                       /\ s.ad[k] = addr'[o][s.idx[k]]
                       /\ k > 1 => s.idx[k-1] < s.idx[k]
Asked(s) == LET o == s.o n == Cardinality(DOMAIN val'[o]) IN
    /\ s.idx = s.cidx /\ s.idx = s.pidx               \* begin/end, cbegin/cend, post-increment
    /\ s.ad = s.itad /\ s.ad = s.cad                  \* iterators and const lookup address the entry
    /\ s.back = s.idx                                 \* index from pointer
    /\ s.al = 1 /\ s.eq = 1
    /\ s.ac = n /\ s.sz = n /\ s.fc = nb'[o] * bs'[o] - n
    /\ s.nb = nb'[o] /\ s.bs = bs'[o]
Built(o) == {addr[o][i] : i \in {k \in DOMAIN val[o] : val[o][k] # Raw}}
LifeOk(e) == /\ live' = Lives(live, e.ev)
             /\ live' # Bad
             /\ live' = UNION {{addr'[o][i] : i \in {k \in DOMAIN val'[o] : val'[o][k] # Raw}} : o \in Obj}

TInit == /\ l = 1 /\ live = {}
         /\ val = [o \in Obj |-> Empty] /\ addr = [o \in Obj |-> Empty] /\ nb = [o \in Obj |-> 0] /\ bs = [o \in Obj |-> 1]
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> /\ val' = [o \in Obj |-> Empty] /\ addr' = [o \in Obj |-> Empty]
                                   /\ nb' = [o \in Obj |-> 1] /\ bs' = [o \in Obj |-> e.bs[o]]
                                   /\ live' = {}
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED <<val, addr, nb, bs, live>>
              [] e.op = "Crash" -> FALSE
              [] OTHER ->
                   /\ Step(e)
                   /\ PoolOK'
                   /\ \A k \in 1..Len(e.S) : Seen(e.S[k])
                   /\ Prop = "M01" => \A k \in 1..Len(e.S) : Asked(e.S[k])
                   /\ IF Prop = "M02" /\ Has(e, "ev") THEN LifeOk(e) ELSE UNCHANGED live
TSpec == TInit /\ [][TNext]_<<val, addr, nb, bs, live, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
