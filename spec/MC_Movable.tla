---------------------------- MODULE MC_Movable ----------------------------
EXTENDS Movable, Json, TLC
CONSTANTS Vals, Kind, Zero
VARIABLES act
vars == <<m, kind, zero, act>>
A(r) == act' = r
Nxt ==
  \E o \in Obj :
    \/ \E v \in Vals, h \in 0..3 : New(o, v) /\ A([op |-> "New", o |-> o - 1, v |-> v, how |-> h])
    \/ Default(o) /\ A([op |-> "Default", o |-> o - 1])
    \/ \E p \in Obj, h \in 0..2 : CopyFrom(o, p) /\ A([op |-> "Copy", o |-> o - 1, p |-> p - 1, how |-> h])
    \/ \E p \in Obj : MoveNew(o, p) /\ A([op |-> "Move", o |-> o - 1, p |-> p - 1, how |-> 1])
    \/ \E p \in Obj : MoveAssign(o, p) /\ A([op |-> "Move", o |-> o - 1, p |-> p - 1, how |-> 0])
    \/ Take(o, m[o]) /\ A([op |-> "Take", o |-> o - 1])
    \/ SelfMove(o) /\ A([op |-> "Move", o |-> o - 1, p |-> o - 1, how |-> 0])
MCInit == kind = Kind /\ zero = Zero /\ m = [o \in Obj |-> IF Kind = "value" THEN 0 ELSE Zero] /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Nxt]_vars
MCView == m
Emitted == PrintT("@T " \o ToJson(<<ToString(m), act', ToString(m')>>))
\* moves of pointers and literals never duplicate nor drop a handle
Count(f, v) == LET S == {o \in Obj : f[o] = v} IN IF S = {} THEN 0 ELSE IF S = Obj THEN 2 ELSE 1
Conserve == [][act'.op = "Move" /\ act'.how = 0 /\ kind # "value" => \A v \in Vals \cup {zero} : Count(m', v) = Count(m, v)]_vars
SourceKept == [][act'.op = "Copy" => \A o \in Obj : o - 1 # act'.o => m'[o] = m[o]]_vars
===========================================================================
