--------------------------- MODULE MC_ScopeExit ---------------------------
EXTENDS ScopeExit, FiniteSets, Json, TLC
CONSTANTS MaxIds
VARIABLES cnt, dropped, made, act     \* calls of each callback; callbacks given up by Reset; callbacks made
vars == <<fn, cnt, dropped, made, act>>
A(r) == act' = r
Count(s) == cnt' = [i \in DOMAIN cnt |-> cnt[i] + Len(SelectSeq(s, LAMBDA x : x = i))]
Nxt ==
  \E o \in Obj :
    \/ /\ made < MaxIds /\ New(o, made + 1) /\ made' = made + 1 /\ UNCHANGED <<cnt, dropped>> /\ A([op |-> "New", o |-> o - 1])
    \/ Gone(o, Due(o)) /\ Count(Due(o)) /\ UNCHANGED <<dropped, made>> /\ A([op |-> "Gone", o |-> o - 1])
    \/ \E t \in 0..1 : Call(o, Due(o)) /\ Count(Due(o)) /\ UNCHANGED <<dropped, made>> /\ A([op |-> "Call", o |-> o - 1, thr |-> t])
    \/ Reset(o) /\ dropped' = dropped \cup ({fn[o]} \ {0}) /\ UNCHANGED <<cnt, made>> /\ A([op |-> "Reset", o |-> o - 1])
    \/ \E p \in Obj, t \in BOOLEAN : /\ t => fn[o] # 0
                                     /\ Move(o, p, Due(o), t) /\ Count(Due(o)) /\ UNCHANGED <<dropped, made>>
                                     /\ A([op |-> "Move", o |-> o - 1, p |-> p - 1, thr |-> IF t THEN 1 ELSE 0])
MCInit == fn = [o \in Obj |-> 0] /\ cnt = [i \in 1..MaxIds |-> 0] /\ dropped = {} /\ made = 0 /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Nxt]_vars
MCView == <<fn, made, cnt, dropped>>
Emitted == PrintT("@T " \o ToJson(<<ToString(MCView), act', ToString(MCView')>>))
\* every callback made is, at any time, exactly one of: run once, given up, held by exactly one object
ExactlyOnce == \A i \in 1..made : cnt[i] + (IF i \in dropped THEN 1 ELSE 0) + Cardinality({o \in Obj : fn[o] = i}) = 1
===========================================================================
