------------------------------ MODULE MC_Pool ------------------------------
(* Bounded closure of Pool, with the implementation's choice of entry (first *)
(* free one) so that every transition can be replayed; Trace_Pool accepts    *)
(* any choice.  Places are pairs <<storage, index>> here.                    *)
EXTENDS Pool, Json, TLC
CONSTANTS MaxBlocks, Sizes
VARIABLES owner, act       \* owner[o]: which storage the pool holds (places follow it)
vars == <<val, addr, nb, bs, owner, act>>
A(r) == act' = r
First(o) == CHOOSE i \in 0..Total(o) : i \notin Live(o) /\ \A j \in 0..(i-1) : j \in Live(o)
Place(o, i) == <<owner[o], i>>
NoRaw(o) == \A i \in Live(o) : val[o][i] # Raw
Nxt ==
  \/ /\ UNCHANGED owner
     /\ \E o \in Obj :
        \/ Alloc(o, First(o), Place(o, First(o)), 1) /\ A([op |-> "Alloc", o |-> o - 1, v |-> 1, how |-> 0])
        \/ Alloc(o, First(o), Place(o, First(o)), Raw) /\ A([op |-> "Alloc", o |-> o - 1, v |-> 1, how |-> 1])
        \/ AllocFailed(o) /\ A([op |-> "Alloc", o |-> o - 1, v |-> 1, how |-> 0, thr |-> 1])
        \/ \E i \in Live(o) :
             \/ Construct(o, i, 2) /\ A([op |-> "Construct", o |-> o - 1, idx |-> i, v |-> 2])
             \/ val[o][i] # Raw /\ Free(o, {i}) /\ A([op |-> "Free", o |-> o - 1, idx |-> i, how |-> 0])
             \/ Free(o, {i}) /\ A([op |-> "Free", o |-> o - 1, idx |-> i, how |-> 1])
             \/ FreeAlloc(o, i, First(o), Place(o, First(o)), 2) /\ A([op |-> "FreeAlloc", o |-> o - 1, idx |-> i, v |-> 1])
        \/ NoRaw(o) /\ Reset(o) /\ A([op |-> "Reset", o |-> o - 1])
        \/ NoRaw(o) /\ Clear(o) /\ A([op |-> "Clear", o |-> o - 1])
        \/ UNCHANGED pvars /\ A([op |-> "Foreign", o |-> o - 1])
        \/ MoveSelf(o) /\ A([op |-> "Move", o |-> o - 1, p |-> o - 1])
        \/ NoRaw(o) /\ \E b \in Sizes : NewPool(o, b) /\ A([op |-> "New", o |-> o - 1, n |-> b])
  \/ /\ NoRaw(1)
     /\ MovePool(1, 2, 0)
     /\ owner' = [owner EXCEPT ![1] = owner[2], ![2] = owner[1]]
     /\ \E h \in 0..1 : A([op |-> "Move", o |-> 0, p |-> 1, how |-> h])
MCInit == /\ val = [o \in Obj |-> Empty] /\ addr = [o \in Obj |-> Empty] /\ nb = [o \in Obj |-> 1] /\ bs = [o \in Obj |-> 2]
          /\ owner = [o \in Obj |-> o] /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Nxt]_vars
Bound == \A o \in Obj : nb[o] <= MaxBlocks /\ Cardinality(Live(o)) <= 3 /\ (o = 2 => nb[o] <= 1 /\ Cardinality(Live(o)) <= 1)
MCView == <<val, nb, bs>>
Emit == Bound' => PrintT("@T " \o ToJson(<<ToString(MCView), act', ToString(MCView')>>))
\* a live entry keeps place and value until freed, whatever happens to others
Stable == [][\A o \in Obj : \A i \in Live(o) :
               act'.op \in {"Alloc", "Construct", "Free", "FreeAlloc", "Foreign"} =>
                 (i \in DOMAIN val'[o] => /\ addr'[o][i] = addr[o][i]
                                          /\ (val'[o][i] # val[o][i] => act'.op = "Construct" /\ act'.idx = i))]_vars
\* room is only ever added when it is needed
Counts == \A o \in Obj : FreeCount(o) + Cardinality(Live(o)) = Total(o)
Growth == [][\A o \in Obj : act'.op = "Alloc" /\ nb'[o] > nb[o] => FreeCount(o) = 0]_vars
============================================================================
