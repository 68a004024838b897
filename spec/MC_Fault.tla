------------------------------ MODULE MC_Fault ------------------------------
(* Bounded closure of Fault: one kind of object in use at a time, every call *)
(* both done and refused.                                                    *)
EXTENDS Fault, Json, TLC
CONSTANTS MaxVec, Widths, MaxBits, MaxNb
VARIABLES act
vars == <<vec, bit, pool, sig, held, imp, act>>
A(r) == act' = r
T(f) == IF f THEN 1 ELSE 0
C(f, r) == A(r @@ [thr |-> T(f), trim |-> T(f)])
Fresh == [o \in Obj |-> FreshPool(2)]
First(o) == CHOOSE i \in 0..(pool[o].nb * pool[o].bs) : i \notin DOMAIN pool[o].v /\ \A j \in 0..(i-1) : j \in DOMAIN pool[o].v
Ids == 1..3
Free == Ids \ (UNION {sig[o] : o \in Obj} \cup {held})
VNext(o, f) ==
  \/ \E v \in {o}  : \/ Vec(o, f, Append(vec[o], v)) /\ C(f, [op |-> "VPush", o |-> o - 1, v |-> v, how |-> v])
                     \/ \E i \in 0..Len(vec[o]) : Vec(o, f, VInsertAt(vec[o], i, v)) /\ C(f, [op |-> "VInsert", o |-> o - 1, v |-> v, i |-> i, how |-> i])
                     \/ \E n \in 0..MaxVec : Vec(o, f, VResized(vec[o], n, v)) /\ C(f, [op |-> "VResize", o |-> o - 1, n |-> n, v |-> v, how |-> 0])
  \/ \E i \in 1..Len(vec[o]) : \/ ~f /\ Vec(o, f, VErased(vec[o], i - 1)) /\ C(f, [op |-> "VErase", o |-> o - 1, i |-> i - 1])
                               \/ Vec(o, f, Append(vec[o], vec[o][i])) /\ C(f, [op |-> "VPushOwn", o |-> o - 1, i |-> i - 1, how |-> i])
  \/ \E p \in Obj, h \in 0..1 : Vec(o, f, vec[p]) /\ C(f, [op |-> "VCopy", o |-> o - 1, p |-> p - 1, how |-> h])
  \/ ~f /\ \E p \in Obj : VMove(o, p) /\ C(f, [op |-> "VMove", o |-> o - 1, p |-> p - 1])
  \/ ~f /\ Vec(o, f, <<>>) /\ C(f, [op |-> "VClear", o |-> o - 1])
BNext(o, f) ==
  \/ \E n \in Widths, v \in 0..1 : \/ Bits(o, f, VResized(bit[o], n, v)) /\ C(f, [op |-> "BResize", o |-> o - 1, n |-> n, how |-> v])
                                   \/ Bits(o, f, BSetTo(bit[o], n, v)) /\ C(f, [op |-> "BSet", o |-> o - 1, n |-> n, how |-> v])
  \/ \E n \in Widths : \/ Bits(o, f, bit[o] \o [k \in 1..n |-> 0]) /\ C(f, [op |-> "BAppend", o |-> o - 1, n |-> n, v |-> 0, how |-> 3])
                       \/ \E k \in {0, n} : f /\ BWritten(o, f, [m \in 1..n |-> 0], bit[o] \o [m \in 1..k |-> 0]) /\ C(f, [op |-> "BWrite", o |-> o - 1, n |-> n, v |-> 0])
  \/ \E p \in Obj : \/ \E k \in 0..2 : Bits(o, f, BOps(k, bit[o], bit[p])) /\ C(f, [op |-> "BOp", o |-> o - 1, p |-> p - 1, how |-> k])
                    \/ Bits(o, f, [k \in 1..Len(bit[p]) |-> 1 - bit[p][k]]) /\ C(f, [op |-> "BNot", o |-> o - 1, p |-> p - 1, how |-> 0])
                    \/ \E h \in 0..1 : Bits(o, f, bit[p]) /\ C(f, [op |-> "BCopy", o |-> o - 1, p |-> p - 1, how |-> h])
                    \/ ~f /\ BSwapped(o, p) /\ C(f, [op |-> "BSwap", o |-> o - 1, p |-> p - 1])
  \/ ~f /\ Bits(o, f, <<>>) /\ C(f, [op |-> "BClear", o |-> o - 1])
PNext(o, f) ==
  \/ \E h \in 0..1 : PAlloc(o, f, First(o), 1) /\ C(f, [op |-> "PAlloc", o |-> o - 1, v |-> 1, how |-> h])
  \/ ~f /\ \E i \in DOMAIN pool[o].v : PFree(o, i) /\ C(f, [op |-> "PFree", o |-> o - 1, i |-> i])
  \/ ~f /\ PReset(o) /\ C(f, [op |-> "PReset", o |-> o - 1])
  \/ ~f /\ PClear(o) /\ C(f, [op |-> "PClear", o |-> o - 1])
  \/ \E b \in 1..2 : PNew(o, f, b) /\ C(f, [op |-> "PNew", o |-> o - 1, n |-> b - 1])
  \/ ~f /\ \E p \in Obj : PMove(o, p, 0) /\ C(f, [op |-> "PMove", o |-> o - 1, p |-> p - 1])
SNext(o, f) ==
  \/ Free # {} /\ LET id == CHOOSE k \in Free : \A m \in Free : k <= m IN
        \/ SConnect(o, f, id) /\ C(f, [op |-> "SConnect", o |-> o - 1, how |-> id])
        \/ \E h \in BOOLEAN : SGuard(o, f, id, h) /\ C(f, [op |-> "SGuard", o |-> o - 1, how |-> id])
  \/ ~f /\ \E id \in sig[o] \ {held} : SDrop(id) /\ C(f, [op |-> "SDrop", i |-> id - 1])
  \/ ~f /\ SClear(o) /\ C(f, [op |-> "SClear", o |-> o - 1])
  \/ ~f /\ \E p \in Obj : SMove(o, p) /\ C(f, [op |-> "SMove", o |-> o - 1, p |-> p - 1])
INext(o, f) ==
  \/ \E v \in 1..2, h \in 0..1 : IMake(o, f, v) /\ C(f, [op |-> "IMake", o |-> o - 1, v |-> v, how |-> h])
  \/ ~f /\ IReset(o) /\ C(f, [op |-> "IReset", o |-> o - 1])
  \/ \E p \in Obj, h \in 0..1 : \E g \in {imp[o], imp[p], <<>>} : ICopy(o, p, f, g) /\ C(f, [op |-> "ICopy", o |-> o - 1, p |-> p - 1, how |-> h])
  \/ ~f /\ \E p \in Obj : \E g \in {<<>>, imp[o]} : IMove(o, p, g) /\ C(f, [op |-> "IMove", o |-> o - 1, p |-> p - 1])
D(x, y) == IF x = y THEN 0 ELSE 1
VUsed == D(vec, [o \in Obj |-> <<>>])
BUsed == D(bit, [o \in Obj |-> <<>>])
PUsed == D(pool, Fresh)
SUsed == D(<<sig, held>>, <<[o \in Obj |-> {}], 0>>)
IUsed == D(imp, [o \in Obj |-> <<>>])
Nxt == \E o \in Obj, f \in BOOLEAN :
  \/ BUsed + PUsed + SUsed + IUsed = 0 /\ VNext(o, f)
  \/ VUsed + PUsed + SUsed + IUsed = 0 /\ BNext(o, f)
  \/ VUsed + BUsed + SUsed + IUsed = 0 /\ PNext(o, f)
  \/ VUsed + BUsed + PUsed + IUsed = 0 /\ SNext(o, f)
  \/ VUsed + BUsed + PUsed + SUsed = 0 /\ INext(o, f)
MCInit == FInit /\ act = [op |-> "Begin", thr |-> 0]
MCSpec == MCInit /\ [][Nxt]_vars
Bound == /\ VUsed + BUsed + PUsed + SUsed + IUsed <= 1
         /\ \A o \in Obj : /\ Len(vec[o]) <= (IF o = 1 THEN MaxVec ELSE 1)
                           /\ Len(bit[o]) <= (IF o = 1 THEN MaxBits ELSE 5)
                           /\ pool[o].nb <= (IF o = 1 THEN MaxNb ELSE 1)
MCView == <<vec, bit, pool, sig, held, imp>>
Emit == Bound' => PrintT("@T " \o ToJson(<<ToString(MCView), act', ToString(MCView')>>))
\* a refusal damages nothing: the other objects are as they were, and the object
\* itself holds nothing it was not given, and -- the named calls apart -- all it held
Undamaged == [][act'.thr = 1 =>
                  /\ vec' = vec /\ pool' = pool
                  /\ \A o \in Obj : IsPrefix(bit[o], bit'[o]) /\ (act'.op # "BWrite" => bit'[o] = bit[o])
                  /\ \A o \in Obj : sig'[o] \subseteq sig[o] /\ sig[o] \ {held} \subseteq sig'[o]
                  /\ \A o \in Obj : imp'[o] \in {imp[o], <<>>}]_vars
=============================================================================
