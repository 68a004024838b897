----------------------------- MODULE MC_Pimpl -----------------------------
EXTENDS Pimpl, Json, TLC
CONSTANTS Vals, Places, Inline, Moved
VARIABLES act
vars == <<has, x, at, inline, act>>
A(r) == act' = r
FreePlace == CHOOSE a \in Places : a \notin Owned /\ \A b \in Places : b < a => b \in Owned
Nxt ==
  \E o \in Obj :
    LET pl == IF Inline THEN o ELSE IF has[o] = 1 THEN at[o] ELSE FreePlace IN
    \/ \E v \in Vals : New(o, 1, v, pl) /\ A([op |-> "New", o |-> o - 1, k |-> 1, v |-> v])
    \/ New(o, 0, 0, pl) /\ A([op |-> "New", o |-> o - 1, k |-> 0])
    \/ \E v \in Vals : Emplace(o, v, pl) /\ A([op |-> "Emplace", o |-> o - 1, v |-> v])
    \/ Reset(o) /\ A([op |-> "Reset", o |-> o - 1])
    \/ \E v \in Vals : Assign(o, v) /\ A([op |-> "Assign", o |-> o - 1, v |-> v])
    \/ \E p \in Obj : o # p /\ Copy(o, p, pl) /\ \E h \in 0..1 : A([op |-> "Copy", o |-> o - 1, p |-> p - 1, how |-> h])
    \/ CopySelf(o, at[o]) /\ A([op |-> "Copy", o |-> o - 1, p |-> o - 1, how |-> 0])
    \/ \E p \in Obj : MoveInline(o, p, Moved) /\ \E h \in 0..1 : A([op |-> "Move", o |-> o - 1, p |-> p - 1, how |-> h])
    \/ \E p \in Obj : MoveHeap(o, p, TRUE) /\ A([op |-> "Move", o |-> o - 1, p |-> p - 1, how |-> 0])
    \/ \E p \in Obj : MoveHeap(o, p, FALSE) /\ A([op |-> "Move", o |-> o - 1, p |-> p - 1, how |-> 1])
    \/ MoveSelf(o) /\ A([op |-> "Move", o |-> o - 1, p |-> o - 1, how |-> 0])
MCInit == /\ inline = Inline
          /\ IF Inline THEN has = [o \in Obj |-> 1] /\ at = [o \in Obj |-> o]
                       ELSE has = [o \in Obj |-> 0] /\ at = [o \in Obj |-> Unused]
          /\ x = [o \in Obj |-> 0]
          /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Nxt]_vars
MCView == <<has, x, at>>
View2 == <<has, x>>
Emitted == PrintT("@T " \o ToJson(<<ToString(View2), act', ToString(View2')>>))
\* an object changes hands or value only by an operation on its holder
Independent == [][\A o \in Obj : x'[o] # x[o] => o - 1 = act'.o \/ (act'.op = "Move" /\ o - 1 = act'.p)]_vars
===========================================================================
