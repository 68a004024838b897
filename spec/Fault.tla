------------------------------- MODULE Fault -------------------------------
(***************************************************************************)
(* Memory runs out.  Every object that allocates -- hybrid vectors,        *)
(* bitsets, memory pools, signals, private implementations -- and every    *)
(* call on it, each of whose allocations may be refused.  The call then    *)
(* tells its caller and the object is what it was, except for the calls    *)
(* named below, which made of several steps may keep the first ones.       *)
(*   vec[o]   the elements         bit[o]   the bits, 0 first              *)
(*   pool[o]  [v: index |-> value, nb: blocks, bs: entries per block]      *)
(*   sig[o]   the slots connected  held     the slot the guard holds (0:   *)
(*            none)                imp[o]   <<>> or <<the object's value>> *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Obj
VARIABLES vec, bit, pool, sig, held, imp
fvars == <<vec, bit, pool, sig, held, imp>>

OnlyVec  == UNCHANGED <<bit, pool, sig, held, imp>>
OnlyBit  == UNCHANGED <<vec, pool, sig, held, imp>>
OnlyPool == UNCHANGED <<vec, bit, sig, held, imp>>
OnlySig  == UNCHANGED <<vec, bit, pool, imp>>
OnlyImp  == UNCHANGED <<vec, bit, pool, sig, held>>
FreshPool(b) == [v |-> [i \in {} |-> 0], nb |-> 1, bs |-> b]
FInit == /\ vec = [o \in Obj |-> <<>>] /\ bit = [o \in Obj |-> <<>>] /\ pool = [o \in Obj |-> FreshPool(2)]
         /\ sig = [o \in Obj |-> {}] /\ held = 0 /\ imp = [o \in Obj |-> <<>>]

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
At(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

\* ---- sequences: what a call leaves when nothing fails
VInsertAt(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))
VResized(s, n, v)  == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o [k \in 1..(n - Len(s)) |-> v]
VErased(s, i)      == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Vec(o, f, new)     == OnlyVec /\ vec' = IF f THEN vec ELSE [vec EXCEPT ![o] = new]
VMove(o, p)        == OnlyVec /\ o # p /\ vec' = [vec EXCEPT ![o] = vec[p], ![p] = <<>>]

\* ---- bits
BSetTo(s, n, v)  == IF n < Len(s) THEN [s EXCEPT ![n + 1] = v] ELSE IF v = 0 THEN s ELSE s \o [k \in 1..(n - Len(s)) |-> 0] \o <<1>>
BOp(k, a, b)     == CASE k = 0 -> a * b [] k = 1 -> (IF a + b > 0 THEN 1 ELSE 0) [] k = 2 -> (a + b) % 2
BOps(k, a, b)    == [n \in 1..Longer(a, b) |-> BOp(k, At(a, n), At(b, n))]
BShifted(s, n)   == [k \in 1..Len(s) |-> IF k > n THEN s[k - n] ELSE 0]
Bits(o, f, new)  == OnlyBit /\ bit' = IF f THEN bit ELSE [bit EXCEPT ![o] = new]
\* bytes are written one after the other: those before the refusal may have been
BWritten(o, f, add, got) == /\ OnlyBit /\ bit' = [bit EXCEPT ![o] = got]
                            /\ IF f THEN IsPrefix(bit[o], got) /\ IsPrefix(got, bit[o] \o add) ELSE got = bit[o] \o add
BSwapped(o, p)   == OnlyBit /\ bit' = [bit EXCEPT ![o] = bit[p], ![p] = bit[o]]

\* ---- pools
PFreeCount(q) == q.nb * q.bs - Cardinality(DOMAIN q.v)
PAlloc(o, f, i, v) == /\ OnlyPool
                      /\ LET q == pool[o] nb == IF PFreeCount(q) > 0 THEN q.nb ELSE q.nb + 1 IN
                         IF f THEN PFreeCount(q) = 0 /\ UNCHANGED pool
                         ELSE /\ i \in (0..(nb * q.bs - 1)) \ DOMAIN q.v
                              /\ pool' = [pool EXCEPT ![o] = [v |-> [k \in DOMAIN q.v \cup {i} |-> IF k = i THEN v ELSE q.v[k]], nb |-> nb, bs |-> q.bs]]
PFree(o, i) == OnlyPool /\ i \in DOMAIN pool[o].v /\ pool' = [pool EXCEPT ![o].v = [k \in DOMAIN @ \ {i} |-> @[k]]]
PReset(o)   == OnlyPool /\ pool' = [pool EXCEPT ![o].v = [k \in {} |-> 0]]
PClear(o)   == OnlyPool /\ pool' = [pool EXCEPT ![o].v = [k \in {} |-> 0], ![o].nb = 0]
PNew(o, f, b) == OnlyPool /\ pool' = IF f THEN pool ELSE [pool EXCEPT ![o] = FreshPool(b)]
PMove(o, p, n) == /\ OnlyPool /\ o # p
                  /\ pool' = [pool EXCEPT ![o] = pool[p], ![p] = [v |-> [k \in {} |-> 0], nb |-> n, bs |-> pool[p].bs]]

\* ---- signals
Without(id)      == [o \in Obj |-> sig[o] \ {id}]
SConnect(o, f, id) == OnlySig /\ sig' = (IF f THEN sig ELSE [sig EXCEPT ![o] = @ \cup {id}]) /\ UNCHANGED held
\* a guard lets go of its slot before it takes another: it may hold none after a refusal
SGuard(o, f, id, holds) == /\ OnlySig
                           /\ IF ~f THEN sig' = [Without(held) EXCEPT ![o] = @ \cup {id}] /\ held' = id
                              ELSE IF holds THEN UNCHANGED <<sig, held>> ELSE sig' = Without(held) /\ held' = 0
SDrop(id)        == OnlySig /\ sig' = Without(id) /\ UNCHANGED held
SClear(o)        == OnlySig /\ sig' = [sig EXCEPT ![o] = {}] /\ UNCHANGED held
SMove(o, p)      == OnlySig /\ o # p /\ sig' = [sig EXCEPT ![o] = sig[p], ![p] = {}] /\ UNCHANGED held
Held             == held # 0 /\ \E o \in Obj : held \in sig[o]

\* ---- private implementations
IMake(o, f, v)   == OnlyImp /\ imp' = IF f THEN imp ELSE [imp EXCEPT ![o] = <<v>>]
IReset(o)        == OnlyImp /\ imp' = [imp EXCEPT ![o] = <<>>]
\* an object that cannot be assigned is replaced: it may be gone after a refusal
ICopy(o, p, f, got) == OnlyImp /\ imp' = [imp EXCEPT ![o] = got] /\ IF f THEN got \in {imp[o], <<>>} /\ imp[p] # <<>> ELSE got = imp[p]
\* what the source is left with is not specified: nothing, or what the target held
IMove(o, p, got) == OnlyImp /\ o # p /\ got \in {<<>>, imp[o]} /\ imp' = [imp EXCEPT ![o] = imp[p], ![p] = got]

FaultOK == /\ \A o \in Obj : \A i \in DOMAIN pool[o].v : i < pool[o].nb * pool[o].bs
           /\ \A o, p \in Obj : o # p => sig[o] \cap sig[p] = {}
           /\ \A o \in Obj : Len(imp[o]) <= 1
=============================================================================
