---------------------------- MODULE Trace_Fault ----------------------------
(* Accepts a recorded execution, allocations refused included, iff each call *)
(* is a step of Fault.  f: the refusal reached the caller; fired: there was   *)
(* one.  A call that says nothing of a refusal has done all of its work.      *)
EXTENDS Fault, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Set(s) == {s[k] : k \in 1..Len(s)}
F(e) == e.f = 1
V(e) == vec[e.o]
B(e) == bit[e.o]
StepV(e) ==
    CASE e.op = "VPush"    -> Vec(e.o, F(e), Append(V(e), e.v))
      [] e.op = "VPushOwn" -> Vec(e.o, F(e), Append(V(e), V(e)[e.i + 1]))
      [] e.op = "VInsert"  -> Vec(e.o, F(e), VInsertAt(V(e), e.i, e.v))
      [] e.op = "VResize"  -> Vec(e.o, F(e), VResized(V(e), e.n, e.v))
      [] e.op = "VReserve" -> Vec(e.o, F(e), V(e))
      [] e.op = "VErase"   -> ~F(e) /\ Vec(e.o, FALSE, VErased(V(e), e.i))
      [] e.op = "VClear"   -> ~F(e) /\ Vec(e.o, FALSE, <<>>)
      [] e.op = "VCopy"    -> Vec(e.o, F(e), vec[e.p])
      [] e.op = "VMove"    -> ~F(e) /\ VMove(e.o, e.p)
      [] e.op = "VNew"     -> Vec(e.o, F(e), e.vals)
      [] OTHER -> FALSE
SeenV(e) == /\ \A o \in Obj : e.s[o] = vec'[o] /\ e.sizes[o] = Len(vec'[o])
            /\ e.at = vec'[e.o]
StepB(e) ==
    CASE e.op = "BResize"  -> Bits(e.o, F(e), VResized(B(e), e.n, e.v))
      [] e.op = "BSet"     -> Bits(e.o, F(e), BSetTo(B(e), e.n, e.v))
      [] e.op = "BAppend"  -> Bits(e.o, F(e), B(e) \o e.add)
      [] e.op = "BWrite"   -> BWritten(e.o, F(e), e.add, e.s[e.o])
      [] e.op \in {"BOp", "BMake"} -> Bits(e.o, F(e), BOps(e.k, B(e), bit[e.p]))
      [] e.op = "BPerform" -> Bits(e.o, F(e), BOps(e.k, bit[e.p], e.z))
      [] e.op = "BNot"     -> Bits(e.o, F(e), [k \in 1..Len(bit[e.p]) |-> 1 - bit[e.p][k]])
      [] e.op = "BStr"     -> Bits(e.o, F(e), e.bits)
      [] e.op = "BCopy"    -> Bits(e.o, F(e), bit[e.p])
      [] e.op = "BShift"   -> Bits(e.o, F(e), BShifted(B(e), e.n))
      [] e.op = "BSwap"    -> ~F(e) /\ BSwapped(e.o, e.p)
      [] e.op = "BClear"   -> ~F(e) /\ Bits(e.o, FALSE, <<>>)
      [] OTHER -> FALSE
Ones(s) == Cardinality({k \in 1..Len(s) : s[k] = 1})
SeenB(e) == \A o \in Obj : /\ e.s[o] = bit'[o]
                           /\ e.cnt[o] = Ones(bit'[o])
                           /\ e.blk[o] = (Len(bit'[o]) + e.bpb - 1) \div e.bpb
StepP(e) ==
    CASE e.op = "PAlloc" -> PAlloc(e.o, F(e), e.i, e.v)
      [] e.op = "PFree"  -> ~F(e) /\ PFree(e.o, e.i)
      [] e.op = "PReset" -> ~F(e) /\ PReset(e.o)
      [] e.op = "PClear" -> ~F(e) /\ PClear(e.o)
      [] e.op = "PNew"   -> PNew(e.o, F(e), e.n)
      [] e.op = "PMove"  -> ~F(e) /\ PMove(e.o, e.p, e.nb[e.p])
      [] OTHER -> FALSE
SeenP(e) == \A o \in Obj : LET q == pool'[o] n == Cardinality(DOMAIN q.v) IN
                /\ Set(e.idx[o]) = DOMAIN q.v /\ Len(e.idx[o]) = n
                /\ \A k \in 1..n : e.val[o][k] = q.v[e.idx[o][k]]
                /\ e.nb[o] = q.nb /\ e.bs[o] = q.bs /\ e.al[o] = n /\ e.fr[o] = q.nb * q.bs - n
                /\ e.same[o] = 1
StepS(e) ==
    CASE e.op = "SConnect" -> SConnect(e.o, F(e), e.id)
      [] e.op = "SGuard"   -> SGuard(e.o, F(e), e.id, e.g = 1)
      [] e.op = "SDrop"    -> ~F(e) /\ SDrop(e.id)
      [] e.op = "SClear"   -> ~F(e) /\ SClear(e.o)
      [] e.op = "SMove"    -> ~F(e) /\ SMove(e.o, e.p)
      [] OTHER -> FALSE
SeenS(e) == /\ \A o \in Obj : Set(e.s[o]) = sig'[o] /\ Len(e.s[o]) = Cardinality(sig'[o])
            /\ Set(e.con) = UNION {sig'[o] : o \in Obj} \ {held'}
            /\ (e.g = 1) = Held'
StepI(e) ==
    CASE e.op = "IMake"  -> IMake(e.o, F(e), e.v)
      [] e.op = "IReset" -> ~F(e) /\ IReset(e.o)
      [] e.op = "ICopy"  -> ICopy(e.o, e.p, F(e), e.s[e.o])
      [] e.op = "IMove"  -> ~F(e) /\ IMove(e.o, e.p, e.s[e.p])
      [] OTHER -> FALSE
SeenI(e) == \A o \in Obj : e.s[o] = imp'[o]
VOps == {"VPush", "VPushOwn", "VInsert", "VResize", "VReserve", "VErase", "VClear", "VCopy", "VMove", "VNew"}
BitOps == {"BResize", "BSet", "BAppend", "BWrite", "BOp", "BMake", "BPerform", "BNot", "BStr", "BCopy", "BShift", "BSwap", "BClear"}
POps == {"PAlloc", "PFree", "PReset", "PClear", "PNew", "PMove"}
SOps == {"SConnect", "SGuard", "SDrop", "SClear", "SMove"}
IOps == {"IMake", "IReset", "ICopy", "IMove"}

TInit == l = 1 /\ FInit
Fresh == /\ vec' = [o \in Obj |-> <<>>] /\ bit' = [o \in Obj |-> <<>>] /\ pool' = [o \in Obj |-> FreshPool(2)]
         /\ sig' = [o \in Obj |-> {}] /\ held' = 0 /\ imp' = [o \in Obj |-> <<>>]
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Ev IN
            CASE e.op = "Begin" -> Fresh
              [] e.op = "Gone"  -> e.blocks = 0 /\ UNCHANGED fvars       \* every block has been given back
              [] e.op = "End"   -> l = Len(Trace) /\ UNCHANGED fvars
              [] e.op = "Crash" -> FALSE
              [] OTHER -> /\ e.f = 1 => e.fired = 1
                          /\ CASE e.op \in VOps -> StepV(e) /\ SeenV(e)
                               [] e.op \in BitOps -> StepB(e) /\ SeenB(e)
                               [] e.op \in POps -> StepP(e) /\ SeenP(e)
                               [] e.op \in SOps -> StepS(e) /\ SeenS(e)
                               [] e.op \in IOps -> StepI(e) /\ SeenI(e)
                               [] OTHER -> FALSE
                          /\ FaultOK'
TSpec == TInit /\ [][TNext]_<<fvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
