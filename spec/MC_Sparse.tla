----------------------------- MODULE MC_Sparse -----------------------------
EXTENDS Sparse, Json, TLC
CONSTANTS Top
Strides == {I(-2), I(0), I(1), I(3)}
Counts == -2..2
VARIABLES act
vars == <<sp, act>>
A(r) == act' = r
In(x) == Le(Zero, x) /\ Le(x, I(Top))
Small(b) == IF b = Zero THEN 0 ELSE b[1] * b[2]
Nxt ==
  \E o \in Obj :
    \/ \E a \in {0, Top}, st \in Strides : Set(o, I(a), st) /\ A([op |-> "New", o |-> o - 1, a |-> a, st |-> Small(st), how |-> 0])
    \/ \E a \in {1, Top} : SetPtr(o, I(a)) /\ A([op |-> "SetPtr", o |-> o - 1, a |-> a])
    \/ \E st \in Strides : SetStride(o, st) /\ A([op |-> "SetStride", o |-> o - 1, st |-> Small(st)])
    \/ \E p \in Obj : Copy(o, p) /\ A([op |-> "Copy", o |-> o - 1, p |-> p - 1, how |-> 0])
    \/ \E p \in Obj, n \in Counts, h \in 0..5 : In(At(p, I(n))) /\ (h >= 2 => o = p) /\ (h >= 4 => n \in {-1, 1})
                              /\ Offset(o, p, I(n)) /\ A([op |-> "Offset", o |-> o - 1, p |-> p - 1, n |-> n, how |-> h])
    \/ \E p \in Obj : Look /\ A([op |-> "Compare", o |-> o - 1, p |-> p - 1])
    \/ \E p \in Obj : sp[o].st = sp[p].st /\ Look /\ A([op |-> "Diff", o |-> o - 1, p |-> p - 1])
MCInit == sp = [o \in Obj |-> [a |-> Zero, st |-> I(1)]] /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Nxt]_vars
MCView == sp
Emitted == PrintT("@T " \o ToJson(<<ToString(MCView), act', ToString(MCView')>>))
\* moving back and forth is the identity; difference and order follow the moves
Laws == \A o \in Obj : \A n, m \in Counts :
          /\ Add(At(o, I(n)), Mul(I(m), sp[o].st)) = At(o, I(n + m))
          /\ Sub(At(o, I(n)), Mul(I(n), sp[o].st)) = sp[o].a
          /\ sp[o].st # Zero => QuoT(Sub(At(o, I(n)), sp[o].a), sp[o].st) = I(n)
          /\ n < m => Cmp(At(o, I(n)), At(o, I(m))) = -Sgn(sp[o].st)
============================================================================
