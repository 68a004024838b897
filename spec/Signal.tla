------------------------------ MODULE Signal ------------------------------
(* Signals, connections and guards.                                          *)
(*   conn[s]  the slots connected to signal s                                *)
(*   hnd[h], grd[g]  the slot a connection / a guard refers to (0: none)     *)
(*   em       the emissions in progress, outermost first:                    *)
(*            [s |-> signal, start |-> slots connected when it started,      *)
(*             called |-> slots called so far, arg |-> what was emitted,     *)
(*             cur |-> slot being called (0: none), thrown |-> BOOLEAN]      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sigs, Hnds, Grds
VARIABLES conn, hnd, grd, em
svars == <<conn, hnd, grd, em>>

Alive      == UNION {conn[s] : s \in Sigs}
HConn(h)   == hnd[h] \in Alive
GConn(g)   == grd[g] \in Alive
Emitting(s) == \E k \in 1..Len(em) : em[k].s = s
Top        == em[Len(em)]
Referenced == Alive \cup {hnd[h] : h \in Hnds} \cup {grd[g] : g \in Grds}
                    \cup UNION {em[k].start \cup em[k].called \cup {em[k].cur} : k \in 1..Len(em)}
Drop(c, id) == [s \in Sigs |-> c[s] \ {id}]

SInit == /\ conn = [s \in Sigs |-> {}] /\ hnd = [h \in Hnds |-> 0] /\ grd = [g \in Grds |-> 0] /\ em = <<>>

\* user code runs at top level or inside a callback, never in between
UserTurn == IF em = <<>> THEN TRUE ELSE Top.cur # 0

HConnect(s, h, id) == /\ UserTurn /\ id # 0 /\ id \notin Referenced
                      /\ conn' = [conn EXCEPT ![s] = @ \cup {id}] /\ hnd' = [hnd EXCEPT ![h] = id] /\ UNCHANGED <<grd, em>>
GConnect(s, g, id) == /\ UserTurn /\ id # 0 /\ id \notin Referenced
                      /\ conn' = [Drop(conn, grd[g]) EXCEPT ![s] = @ \cup {id}]
                      /\ grd' = [grd EXCEPT ![g] = id] /\ UNCHANGED <<hnd, em>>
HDisc(h) == UserTurn /\ conn' = Drop(conn, hnd[h]) /\ UNCHANGED <<hnd, grd, em>>
GDisc(g) == UserTurn /\ conn' = Drop(conn, grd[g]) /\ UNCHANGED <<hnd, grd, em>>
HCopy(h, k) == UserTurn /\ hnd' = [hnd EXCEPT ![h] = hnd[k]] /\ UNCHANGED <<conn, grd, em>>
HMove(h, k) == UserTurn /\ h # k /\ hnd' = [hnd EXCEPT ![h] = hnd[k], ![k] = 0] /\ UNCHANGED <<conn, grd, em>>
HClear(h)   == UserTurn /\ hnd' = [hnd EXCEPT ![h] = 0] /\ UNCHANGED <<conn, grd, em>>
HFromG(h, g) == UserTurn /\ hnd' = [hnd EXCEPT ![h] = grd[g]] /\ UNCHANGED <<conn, grd, em>>
\* a guard that takes another slot, or dies, disconnects the one it had
GFromH(g, h, moved) == /\ UserTurn /\ conn' = Drop(conn, grd[g]) /\ grd' = [grd EXCEPT ![g] = hnd[h]]
                       /\ hnd' = IF moved THEN [hnd EXCEPT ![h] = 0] ELSE hnd
                       /\ UNCHANGED em
GMove(g, k) == /\ UserTurn /\ g # k /\ conn' = Drop(conn, grd[g])
               /\ grd' = [grd EXCEPT ![g] = grd[k], ![k] = 0] /\ UNCHANGED <<hnd, em>>
GSelf(g)    == UserTurn /\ UNCHANGED svars
GGone(g)    == UserTurn /\ conn' = Drop(conn, grd[g]) /\ grd' = [grd EXCEPT ![g] = 0] /\ UNCHANGED <<hnd, em>>
SClear(s)   == UserTurn /\ conn' = [conn EXCEPT ![s] = {}] /\ UNCHANGED <<hnd, grd, em>>
\* destroyed, then replaced by a new one (a copy of p included: copies have no slot)
SGone(s)    == ~Emitting(s) /\ SClear(s)
SCopy(s, p) == UserTurn /\ UNCHANGED svars
SMove(s, p) == /\ UserTurn /\ ~Emitting(s) /\ ~Emitting(p)
               /\ conn' = IF s = p THEN conn ELSE [conn EXCEPT ![s] = conn[p], ![p] = {}]
               /\ UNCHANGED <<hnd, grd, em>>

Emit(s, a) == /\ UserTurn /\ ~Emitting(s)
              /\ em' = Append(em, [s |-> s, start |-> conn[s], called |-> {}, arg |-> a, cur |-> 0, thrown |-> FALSE])
              /\ UNCHANGED <<conn, hnd, grd>>
Call(id, a) == /\ em # <<>> /\ Top.cur = 0 /\ ~Top.thrown
               /\ id \in conn[Top.s] /\ id \notin Top.called /\ a = Top.arg
               /\ em' = [em EXCEPT ![Len(em)].called = @ \cup {id}, ![Len(em)].cur = id]
               /\ UNCHANGED <<conn, hnd, grd>>
Return(id)  == /\ em # <<>> /\ Top.cur = id /\ id # 0
               /\ em' = [em EXCEPT ![Len(em)].cur = 0] /\ UNCHANGED <<conn, hnd, grd>>
Throw(id)   == /\ em # <<>> /\ Top.cur = id /\ id # 0
               /\ em' = [em EXCEPT ![Len(em)].cur = 0, ![Len(em)].thrown = TRUE] /\ UNCHANGED <<conn, hnd, grd>>
EmitEnd(threw) == /\ em # <<>> /\ Top.cur = 0
                  /\ threw = Top.thrown
                  /\ threw \/ Top.start \cap conn[Top.s] \subseteq Top.called
                  /\ em' = SubSeq(em, 1, Len(em) - 1)
                  /\ UNCHANGED <<conn, hnd, grd>>

SigType == /\ \A s, t \in Sigs : s # t => conn[s] \cap conn[t] = {}
           /\ 0 \notin Alive
           /\ \A j, k \in 1..Len(em) : j # k => em[j].s # em[k].s
===========================================================================
