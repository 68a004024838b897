---------------------------- MODULE MC_SigEmit ----------------------------
(* The emission algorithm of Signal.inl (a list of slots and an iterator     *)
(* which disconnections during the emission have to correct), checked        *)
(* exhaustively to refine Signal: TLC explores every interleaving of         *)
(* connections, disconnections, clears and exceptions with the emission.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Hnds, MaxIds
VARIABLES list, it, hnd, em, act
S1 == 1
Abs == INSTANCE Signal WITH Sigs <- {S1}, Grds <- {}, grd <- [g \in {} |-> 0], conn <- [s \in {S1} |-> ToSet(list)]
vars == <<list, it, hnd, em, act>>
Ids == 1..MaxIds
N == Len(list)
\* positions count from 0; -1 is before the first slot (it wraps around as an unsigned number)
At(k) == list[k + 1]
PosOf(id) == CHOOSE k \in 0..(N-1) : At(k) = id
Past == it = -1 \/ it >= N - 1
A(r) == act' = r
Fresh == CHOOSE i \in Ids : i \notin Abs!Referenced /\ \A j \in 1..(i-1) : j \in Abs!Referenced
HasFresh == \E i \in Ids : i \notin Abs!Referenced
DoConnect == /\ list' = Append(list, Fresh)
             /\ it' = IF it >= N /\ it # -1 THEN N + 1 ELSE it
DoDisconnect(id) ==
    LET k == PosOf(id) last == At(N-1) IN
    IF Past \/ k > it
    THEN /\ list' = SubSeq([list EXCEPT ![k+1] = last], 1, N - 1) /\ it' = it
    ELSE LET l1 == [list EXCEPT ![k+1] = At(it)]
             l2 == [l1 EXCEPT ![it+1] = last]
         IN /\ list' = SubSeq(l2, 1, N - 1) /\ it' = it - 1
User == IF em = <<>> THEN TRUE ELSE em[1].cur # 0
Nxt ==
  \/ /\ User /\ HasFresh
     /\ \E h \in Hnds : /\ hnd[h] \notin ToSet(list) /\ \A k \in Hnds : k < h => hnd[k] \in ToSet(list)
                        /\ DoConnect /\ hnd' = [hnd EXCEPT ![h] = Fresh] /\ UNCHANGED em
                        /\ A([op |-> "HConnect", s |-> 0, h |-> h - 1])
  \/ /\ User
     /\ \E h \in Hnds : /\ hnd[h] \in ToSet(list) /\ DoDisconnect(hnd[h]) /\ UNCHANGED <<hnd, em>>
                        /\ A([op |-> "HDisc", h |-> h - 1])
  \/ /\ User /\ list' = <<>> /\ it' = 0 /\ UNCHANGED <<hnd, em>> /\ A([op |-> "SClear", s |-> 0])
  \/ /\ em = <<>> /\ it' = 0 /\ UNCHANGED <<list, hnd>>
     /\ em' = <<[s |-> S1, start |-> ToSet(list), called |-> {}, arg |-> 1, cur |-> 0, thrown |-> FALSE]>>
     /\ A([op |-> "Emit", s |-> 0, v |-> 1])
  \* the loop: test, call
  \/ /\ em # <<>> /\ em[1].cur = 0 /\ ~em[1].thrown /\ it < N
     /\ em' = [em EXCEPT ![1].called = @ \cup {At(it)}, ![1].cur = At(it)]
     /\ UNCHANGED <<list, it, hnd>> /\ A([op |-> "Auto"])
  \/ /\ em # <<>> /\ em[1].cur # 0
     /\ em' = [em EXCEPT ![1].cur = 0] /\ it' = it + 1 /\ UNCHANGED <<list, hnd>> /\ A([op |-> "Ret"])
  \/ /\ em # <<>> /\ em[1].cur # 0
     /\ em' = [em EXCEPT ![1].cur = 0, ![1].thrown = TRUE] /\ UNCHANGED <<list, it, hnd>> /\ A([op |-> "Throw"])
  \/ /\ em # <<>> /\ em[1].cur = 0 /\ (em[1].thrown \/ it >= N)
     /\ em' = <<>> /\ UNCHANGED <<list, it, hnd>> /\ A([op |-> "Auto"])
MCInit == list = <<>> /\ it = 0 /\ hnd = [h \in Hnds |-> 0] /\ em = <<>> /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Nxt]_vars
MCView == <<list, it, hnd, em>>
\* finite: connections made inside one emission are bounded by MaxIds through Fresh
Emitted == PrintT("@T " \o ToJson(<<ToString(MCView), act', ToString(MCView')>>))
\* ---- the list algorithm is a correct implementation of Signal
AbsNext == \/ \E h \in Hnds, id \in Ids : Abs!HConnect(S1, h, id)
           \/ \E h \in Hnds : Abs!HDisc(h)
           \/ Abs!SClear(S1)
           \/ Abs!Emit(S1, 1)
           \/ \E id \in Ids : Abs!Call(id, 1) \/ Abs!Return(id) \/ Abs!Throw(id)
           \/ Abs!EmitEnd(TRUE) \/ Abs!EmitEnd(FALSE)
Refines == Abs!SInit /\ [][AbsNext]_<<list, hnd, em>>
NoDup == Len(list) = Cardinality(ToSet(list))
InRange == it >= -1
===========================================================================
