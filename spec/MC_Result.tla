----------------------------- MODULE MC_Result -----------------------------
EXTENDS Result, Json, TLC
CONSTANTS Vals, Moved
VARIABLES act
vars == <<res, act>>
A(r) == act' = r
Nxt ==
  \E o \in Obj :
    \/ \E k \in 0..1, x \in Vals : New(o, k, x) /\ A([op |-> "New", o |-> o - 1, k |-> k, v |-> x])
    \/ \E p \in Obj : CopyFrom(o, p) /\ A([op |-> "Copy", o |-> o - 1, p |-> p - 1])
    \/ \E p \in Obj : MoveFrom(o, p, Moved) /\ A([op |-> "Move", o |-> o - 1, p |-> p - 1])
    \/ \E x \in Vals : Mutate(o, x) /\ A([op |-> "Mutate", o |-> o - 1, v |-> x])
    \/ Take(o, res[o].x, Moved) /\ A([op |-> "Take", o |-> o - 1])
    \/ Keep /\ \E h \in 0..2 : A([op |-> "Map", o |-> o - 1, how |-> h])
    \/ Keep /\ \E x \in Vals : A([op |-> "Or", o |-> o - 1, v |-> x])
    \/ \E how \in 0..4 : Fault(how, o, o, TRUE, TRUE, Throws(how, o, o, TRUE, TRUE), Calls(how, o), res[o].x)
                         /\ A([op |-> "Fault", o |-> o - 1, how |-> how])
    \/ \E p \in Obj, t \in BOOLEAN : Fault(5, o, p, t, t, Throws(5, o, p, t, t), 0, 0) /\ A([op |-> "Fault", o |-> o - 1, p |-> p - 1, how |-> 5])
    \/ Keep /\ A([op |-> "Observe", o |-> o - 1])
    \/ Keep /\ A([op |-> "Try", o |-> o - 1])
MCInit == res = [o \in Obj |-> V(0)] /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Nxt]_vars
MCView == res
Emitted == PrintT("@T " \o ToJson(<<ToString(MCView), act', ToString(MCView')>>))
\* the alternative changes only by construction or assignment of that very object
Sticky == [][\A o \in Obj : res'[o].k # res[o].k => act'.op \in {"New", "Copy", "Move", "Fault"} /\ act'.o = o - 1]_vars
\* nothing but the named objects changes, and a copy source never does
Frame == [][\A o \in Obj : res'[o] # res[o] => o - 1 = act'.o \/ (act'.op = "Move" /\ o - 1 = act'.p)]_vars
============================================================================
