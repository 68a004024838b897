---------------------------- MODULE MC_EnumArr ----------------------------
EXTENDS EnumArr, Json, TLC
CONSTANTS N, Vals
VARIABLES act
vars == <<arr, it, n, act>>
A(r) == act' = r
Nxt ==
  \/ \E o \in Obj :
       \/ \E k \in Keys, v \in Vals : Write(o, k, v) /\ A([op |-> "Write", o |-> o - 1, k |-> k, v |-> v])
       \/ \E v \in Vals : Fill(o, v) /\ A([op |-> "Fill", o |-> o - 1, v |-> v])
       \/ \E p \in Obj : Set(o, arr[p]) /\ A([op |-> "Copy", o |-> o - 1, p |-> p - 1])
       \/ \E p \in Obj : Swap(o, p) /\ A([op |-> "Swap", o |-> o - 1, p |-> p - 1])
       \/ \E i \in Its : Point(i, o, 0) /\ A([op |-> "Begin_it", i |-> i - 1, o |-> o - 1])
       \/ \E i \in Its : Point(i, o, n) /\ A([op |-> "End_it", i |-> i - 1, o |-> o - 1])
  \/ \E i \in Its :
       \/ \E d \in {-1, 1}, h \in 0..1 : Move(i, d) /\ A([op |-> "Step", i |-> i - 1, d |-> d, how |-> h])
       \/ \E d \in -N..N : Move(i, d) /\ A([op |-> "Move", i |-> i - 1, d |-> d])
       \/ \E j \in Its, d \in -N..N, h \in 0..1 : Offset(j, i, d) /\ A([op |-> "Offset", j |-> j - 1, i |-> i - 1, d |-> d, how |-> h])
       \/ \E d \in -N..N, v \in Vals : Can(i, d) /\ WriteAt(i, d, v) /\ A([op |-> "WriteAt", i |-> i - 1, d |-> d, v |-> v])
       \/ \E j \in Its : it[i].a = it[j].a /\ Look /\ A([op |-> "Compare", i |-> i - 1, j |-> j - 1])
MCInit == n = N /\ arr = [o \in Obj |-> Const(0)] /\ it = [i \in Its |-> [a |-> 1, p |-> 0]] /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Nxt]_vars
MCView == <<arr, it>>
Emitted == PrintT("@T " \o ToJson(<<ToString(MCView), act', ToString(MCView')>>))
\* a write through one enumerator changes that element only
OneElement == [][act'.op \in {"Write", "WriteAt"} =>
                   \A o, q \in Obj : \A k, m \in Keys : arr'[o][k] # arr[o][k] /\ arr'[q][m] # arr[q][m] => o = q /\ k = m]_vars
\* iterator arithmetic never changes elements, nor any other iterator
Inert == [][act'.op \in {"Step", "Move", "Offset", "Compare"} => arr' = arr /\ \A i \in Its : it'[i] # it[i] => i - 1 = (IF act'.op = "Offset" THEN act'.j ELSE act'.i)]_vars
===========================================================================
