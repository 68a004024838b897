----------------------------- MODULE MC_Flags -----------------------------
EXTENDS Flags, Json, TLC
CONSTANTS N
VARIABLES act
vars == <<fs, n, known, act>>
A(r) == act' = r
Fn == {"or", "and", "xor"}
Nxt ==
  \E o \in Obj :
    \/ \E s \in SUBSET U : Put(o, s) /\ A([op |-> "New", o |-> o - 1, m |-> Asc(s), how |-> 0])
    \/ \E p, q \in Obj, f \in Fn : Bin(o, f, fs[p], fs[q]) /\ A([op |-> "Bin_" \o f, o |-> o - 1, a |-> p - 1, b |-> q - 1, how |-> 0])
    \/ \E p \in Obj, k \in U, f \in Fn, h \in 1..2 : Bin(o, f, fs[p], {k}) /\ A([op |-> "Bin_" \o f, o |-> o - 1, a |-> p - 1, b |-> p - 1, k |-> k, how |-> h])
    \/ \E p \in Obj, f \in Fn \cup {"diff"} : Bin(o, f, fs[o], fs[p]) /\ A([op |-> "Self_" \o f, o |-> o - 1, a |-> p - 1, how |-> 0])
    \/ \E k \in U, f \in Fn \cup {"diff"} : Bin(o, f, fs[o], {k}) /\ A([op |-> "Self_" \o f, o |-> o - 1, k |-> k, how |-> 1])
    \/ \E p \in Obj : Compl(o, fs[p]) /\ A([op |-> "Compl", o |-> o - 1, a |-> p - 1, how |-> 0])
    \/ Put(o, {}) /\ A([op |-> "Clear", o |-> o - 1])
    \/ \E p \in Obj : Look /\ A([op |-> "Test", o |-> o - 1, a |-> p - 1])
MCInit == n = N /\ fs = [o \in Obj |-> {}] /\ known = {} /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Nxt]_vars
MCView == fs
Emitted == PrintT("@T " \o ToJson(<<ToString(MCView), act', ToString(MCView')>>))
\* the algebra a user relies on
Laws == \A o, p \in Obj :
          LET x == fs[o] y == fs[p] IN
          /\ U \ (U \ x) = x /\ Apply("xor", x, y) = Apply("diff", x \cup y, x \cap y) /\ Apply("xor", Apply("xor", x, y), y) = x
          /\ U \ (x \cup y) = (U \ x) \cap (U \ y) /\ (Test(x, y) <=> Apply("diff", y, x) = {}) /\ (Test(x, y) <=> x \cap y = y)
          /\ Len(Asc(x)) = Cardinality(x) /\ {Asc(x)[k] : k \in 1..Len(Asc(x))} = x /\ \A k \in 2..Len(Asc(x)) : Asc(x)[k - 1] < Asc(x)[k]
Frame == [][\A o \in Obj : fs'[o] # fs[o] => act'.o = o - 1]_vars
===========================================================================
