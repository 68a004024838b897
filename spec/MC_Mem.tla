------------------------------- MODULE MC_Mem -------------------------------
EXTENDS Mem, TLC, Json
CONSTANTS Val, Most       \* values written, objects made
VARIABLE act
Do(a, A) == A /\ act' = a
Next ==
  \/ \E f \in Field : \/ Do([op |-> "ReadField", f |-> f], ReadField(f))
                      \/ \E v \in Val : Do([op |-> "WriteField", f |-> f, v |-> v], WriteField(f, v))
  \/ \E k \in Key : \/ Do([op |-> "Retrieve", k |-> k], Retrieve(k))
                    \/ Do([op |-> "Erase", k |-> k], Erase(k))
                    \/ Do([op |-> "Retrieve", k |-> k], RetrieveFails(k))
                    \/ \E v \in Val : \/ Do([op |-> "SetKey", k |-> k, v |-> v], SetKey(k, v))
                                      \/ Do([op |-> "RetrieveSet", k |-> k, v |-> v], RetrieveSet(k, v))
  \/ \E s \in Slots : \/ made < Most /\ \E c \in 0..3 : Do([op |-> "New", s |-> s, c |-> c], New(s, c))
                      \/ Do([op |-> "Reset", s |-> s], Reset(s))
                      \/ \E t \in Slots : Do([op |-> "Cast", s |-> s, t |-> t], Cast(s, t))
  \/ \E c \in Cell : \/ \E v \in Val : Do([op |-> "Construct", c |-> c, v |-> v], Construct(c, v))
                     \/ Do([op |-> "Destroy", c |-> c], Destroy(c))
  \/ Do([op |-> "DestroyNull"], DestroyNull)
Init == MInit /\ act = [op |-> "Init"]
Spec == Init /\ [][Next]_<<mvars, act>>
View == <<fld, map, slot, dead, made, cell>>
Emit == PrintT("@T " \o ToJson(<<<<fld, map, slot, dead, made, cell>>, act', <<fld', map', slot', dead', made', cell'>>>>))

\* every object made is owned once or was destroyed once, never both
Owned == /\ \A i \in 1..made : Cardinality({s \in Slots : slot[s].id = i}) + Cardinality({n \in 1..Len(dead) : dead[n] = i}) = 1
         /\ \A s \in DSlot : slot[s].id = 0 \/ IsDerived(slot[s].cls)
OneEntry == \A p, q \in map : p[1] = q[1] => p = q
Frame == [][/\ act'.op \in {"WriteField", "ReadField"} => /\ \A f \in Field : f # act'.f => fld'[f] = fld[f]
                                                         /\ out' = fld'[act'.f]
            /\ act'.op \in {"Retrieve", "RetrieveSet"} => \A k \in Key : k # act'.k => (k \in Keys => k \in {p[1] : p \in map'})
            /\ act'.op = "RetrieveSet" => <<act'.k, act'.v>> \in map'
            /\ act'.op = "Cast" => /\ made' = made /\ slot'[act'.t] = slot[act'.s] /\ slot'[act'.s] = Nobody
                                   /\ \A s \in Slots : s \notin {act'.s, act'.t} => slot'[s] = slot[s]]_<<mvars, act>>
=============================================================================
