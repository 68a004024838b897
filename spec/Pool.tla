------------------------------- MODULE Pool -------------------------------
(* MemoryPool: a growing set of fixed-size blocks of entries.               *)
(*   val[o]   the live entries of pool o: index |-> value (Raw: allocated    *)
(*            but not constructed)                                           *)
(*   addr[o]  the place of every live entry                                  *)
(*   nb[o], bs[o]  number of blocks, entries per block                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Obj, Raw
VARIABLES val, addr, nb, bs
pvars == <<val, addr, nb, bs>>

Live(o)      == DOMAIN val[o]
Total(o)     == nb[o] * bs[o]
FreeCount(o) == Total(o) - Cardinality(Live(o))
Empty        == [x \in {} |-> 0]
With(f, k, v)    == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S)    == [x \in DOMAIN f \ S |-> f[x]]
Places(o)    == {addr[o][i] : i \in Live(o)}
AllPlaces    == UNION {Places(o) : o \in Obj}

\* a block is added only when no entry is free
BlocksFor(o, n) == IF FreeCount(o) >= n THEN nb[o] ELSE nb[o] + (n - FreeCount(o) + bs[o] - 1) \div bs[o]

NewPool(o, b) == /\ b > 0
                 /\ val' = [val EXCEPT ![o] = Empty] /\ addr' = [addr EXCEPT ![o] = Empty]
                 /\ nb' = [nb EXCEPT ![o] = 1] /\ bs' = [bs EXCEPT ![o] = b]
Alloc(o, i, a, v) ==
    /\ i \notin Live(o) /\ a \notin AllPlaces
    /\ nb' = [nb EXCEPT ![o] = BlocksFor(o, 1)]
    /\ i \in 0..(nb'[o] * bs[o] - 1)
    /\ val' = [val EXCEPT ![o] = With(@, i, v)]
    /\ addr' = [addr EXCEPT ![o] = With(@, i, a)]
    /\ UNCHANGED bs
\* the constructor allocated another entry (j, at b, of value w) while it ran
AllocNested(o, i, a, v, j, b, w) ==
    /\ i \notin Live(o) /\ j \notin Live(o) /\ i # j
    /\ a \notin AllPlaces /\ b \notin AllPlaces /\ a # b
    /\ nb' = [nb EXCEPT ![o] = BlocksFor(o, 2)]
    /\ {i, j} \subseteq 0..(nb'[o] * bs[o] - 1)
    /\ val' = [val EXCEPT ![o] = With(With(@, i, v), j, w)]
    /\ addr' = [addr EXCEPT ![o] = With(With(@, i, a), j, b)]
    /\ UNCHANGED bs
\* a constructor that throws leaves no live entry; room may have been added for it
AllocFailed(o) == /\ nb' = [nb EXCEPT ![o] = BlocksFor(o, 1)] /\ UNCHANGED <<val, addr, bs>>
Construct(o, i, v) == i \in Live(o) /\ val[o][i] = Raw /\ val' = [val EXCEPT ![o] = With(@, i, v)] /\ UNCHANGED <<addr, nb, bs>>
Assign(o, i, v) == i \in Live(o) /\ val[o][i] # Raw /\ val' = [val EXCEPT ![o] = With(@, i, v)] /\ UNCHANGED <<addr, nb, bs>>
Free(o, S) == /\ S \subseteq Live(o)
              /\ val' = [val EXCEPT ![o] = Without(@, S)] /\ addr' = [addr EXCEPT ![o] = Without(@, S)]
              /\ UNCHANGED <<nb, bs>>
\* the destructor of the freed entry asked for another one: it is not the one being destroyed
FreeAlloc(o, i, j, b, w) ==
    /\ i \in Live(o) /\ val[o][i] # Raw
    /\ j \notin Live(o) /\ b \notin AllPlaces
    /\ nb' = [nb EXCEPT ![o] = BlocksFor(o, 1)]
    /\ j \in 0..(nb'[o] * bs[o] - 1)
    /\ val' = [val EXCEPT ![o] = With(Without(@, {i}), j, w)]
    /\ addr' = [addr EXCEPT ![o] = With(Without(@, {i}), j, b)]
    /\ UNCHANGED bs
Reset(o) == val' = [val EXCEPT ![o] = Empty] /\ addr' = [addr EXCEPT ![o] = Empty] /\ UNCHANGED <<nb, bs>>
Clear(o) == val' = [val EXCEPT ![o] = Empty] /\ addr' = [addr EXCEPT ![o] = Empty] /\ nb' = [nb EXCEPT ![o] = 0] /\ UNCHANGED bs
MoveSelf(o) == UNCHANGED pvars
\* entries keep their indices and places; the source has no entry left but is usable
MovePool(o, p, n) == /\ o # p
                     /\ val' = [val EXCEPT ![o] = val[p], ![p] = Empty]
                     /\ addr' = [addr EXCEPT ![o] = addr[p], ![p] = Empty]
                     /\ nb' = [nb EXCEPT ![o] = nb[p], ![p] = n]
                     /\ bs' = [bs EXCEPT ![o] = bs[p]]

PoolOK == \A o \in Obj :
    /\ Live(o) \subseteq 0..(Total(o) - 1)
    /\ DOMAIN addr[o] = Live(o)
    /\ FreeCount(o) >= 0
    /\ Cardinality(Places(o)) = Cardinality(Live(o))       \* no two live entries share a place
    /\ \A p \in Obj : o # p => Places(o) \cap Places(p) = {}
===========================================================================
