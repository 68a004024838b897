-------------------------------- MODULE Mem --------------------------------
(***************************************************************************)
(* Generic helpers that address memory somebody else owns (Algorithm.hpp,  *)
(* OffsetOf.hpp, MemoryHelper.hpp): fields reached by offset, map entries, *)
(* uniquely owned objects, raw storage.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Field, Key, BSlot, DSlot, Cell    \* fields of a structure, map keys, slots owning base/derived objects, raw storage
VARIABLES fld,     \* the values of the fields
          map,     \* the entries of a map: <<key, value>>
          slot,    \* the object each owner owns: [id, cls], id 0 if none
          dead,    \* the objects destroyed, in order
          made,    \* how many objects were made
          cell,    \* raw storage: what lives there, NoVal if nothing
          out      \* outcome of the last operation
mvars == <<fld, map, slot, dead, made, cell, out>>
NoVal == -1
Nobody == [id |-> 0, cls |-> 0]
Slots == BSlot \cup DSlot
Keys == {p[1] : p \in map}
ValueOf(k) == (CHOOSE p \in map : p[1] = k)[2]
Put(k, v) == {p \in map : p[1] # k} \cup {<<k, v>>}
\* classes: 0 base, 1 derived, 2 derived of derived, 3 derived from something else and base
IsDerived(c) == c \in {1, 2}

MInit == /\ fld = [f \in Field |-> 0] /\ map = {} /\ slot = [s \in Slots |-> Nobody] /\ dead = <<>> /\ made = 0
         /\ cell = [c \in Cell |-> NoVal] /\ out = NoVal

\* ---- fields: writing one through its offset changes that one
ReadField(f) == out' = fld[f] /\ UNCHANGED <<fld, map, slot, dead, made, cell>>
WriteField(f, v) == fld' = [fld EXCEPT ![f] = v] /\ out' = v /\ UNCHANGED <<map, slot, dead, made, cell>>
SetField(f, v) == WriteField(f, v)       \* by its name

\* ---- maps: an entry that exists is itself, not a copy
SetKey(k, v) == map' = Put(k, v) /\ out' = v /\ UNCHANGED <<fld, slot, dead, made, cell>>
Erase(k) == map' = {p \in map : p[1] # k} /\ out' = NoVal /\ UNCHANGED <<fld, slot, dead, made, cell>>
Retrieve(k) == k \in Keys /\ out' = ValueOf(k) /\ UNCHANGED <<fld, map, slot, dead, made, cell>>
RetrieveSet(k, v) == k \in Keys /\ map' = Put(k, v) /\ out' = v /\ UNCHANGED <<fld, slot, dead, made, cell>>
RetrieveFails(k) == k \notin Keys /\ out' = NoVal /\ UNCHANGED <<fld, map, slot, dead, made, cell>>

\* ---- owners
Buried(s) == IF slot[s].id = 0 THEN dead ELSE Append(dead, slot[s].id)
New(s, c) == /\ s \in DSlot => IsDerived(c)
             /\ slot' = [slot EXCEPT ![s] = [id |-> made + 1, cls |-> c]] /\ made' = made + 1
             /\ dead' = Buried(s) /\ out' = made + 1 /\ UNCHANGED <<fld, map, cell>>
Reset(s) == /\ slot' = [slot EXCEPT ![s] = Nobody] /\ dead' = Buried(s) /\ out' = NoVal /\ UNCHANGED <<fld, map, made, cell>>
\* the owner t takes over what s owns, as what t calls it
Cast(s, t) == /\ s # t
              /\ t \in DSlot => slot[s].id = 0 \/ IsDerived(slot[s].cls)
              /\ slot' = [slot EXCEPT ![t] = slot[s], ![s] = Nobody]
              /\ dead' = Buried(t) /\ out' = slot[s].id /\ UNCHANGED <<fld, map, made, cell>>

\* ---- raw storage
Construct(c, v) == /\ cell[c] = NoVal /\ cell' = [cell EXCEPT ![c] = v] /\ out' = v /\ UNCHANGED <<fld, map, slot, dead, made>>
Destroy(c) == /\ cell[c] # NoVal /\ cell' = [cell EXCEPT ![c] = NoVal] /\ out' = cell[c] /\ UNCHANGED <<fld, map, slot, dead, made>>
DestroyNull == out' = NoVal /\ UNCHANGED <<fld, map, slot, dead, made, cell>>
=============================================================================
