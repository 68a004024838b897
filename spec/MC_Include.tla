---------------------------- MODULE MC_Include ----------------------------
EXTENDS Include, TLC, Json
CONSTANTS MaxLen
VARIABLE act
\* 1 needs nothing, 2 needs 1, 3 needs 2 and 1, 4 needs nothing
Graph == <<<<>>, <<1>>, <<2, 1>>, <<>>>>
Next == \E u \in Unit, h \in Header : Len(asked[u]) < MaxLen /\ Include(u, h) /\ act' = [u |-> u, h |-> h]
Spec == Init /\ act = [u |-> 0, h |-> 0] /\ [][Next]_<<ivars, act>>
\* the units do not see each other
Apart == [][\A u \in Unit : u # act'.u => text'[u] = text[u]]_<<ivars, act>>
View == ivars
Emit == (\E u \in Unit : Len(asked'[u]) < MaxLen) \/ PrintT("@T " \o ToJson(asked'))
=============================================================================
