---------------------------- MODULE MC_SigLife ----------------------------
(* Bounded closure of Signal between emissions: connections, guards, copies, *)
(* moves and destruction, every transition of which is replayed on the code. *)
EXTENDS Signal, Json, TLC
CONSTANTS MaxIds
VARIABLES act
vars == <<conn, hnd, grd, em, act>>
Ids == 1..MaxIds
A(r) == act' = r
HasFresh == \E i \in Ids : i \notin Referenced
Fresh == CHOOSE i \in Ids : i \notin Referenced /\ \A j \in 1..(i-1) : j \in Referenced
SameSlot(g, id) == id # 0 /\ grd[g] = id
Nxt ==
  \/ HasFresh /\ \E s \in Sigs, h \in Hnds : HConnect(s, h, Fresh) /\ A([op |-> "HConnect", s |-> s - 1, h |-> h - 1])
  \/ HasFresh /\ \E s \in Sigs, g \in Grds : GConnect(s, g, Fresh) /\ A([op |-> "GConnect", s |-> s - 1, g |-> g - 1])
  \/ \E h \in Hnds : HDisc(h) /\ A([op |-> "HDisc", h |-> h - 1])
  \/ \E g \in Grds : GDisc(g) /\ A([op |-> "GDisc", g |-> g - 1])
  \/ \E h, k \in Hnds : h # k /\ HCopy(h, k) /\ A([op |-> "HCopy", h |-> h - 1, k |-> k - 1])
  \/ \E h, k \in Hnds : h # k /\ HMove(h, k) /\ A([op |-> "HMove", h |-> h - 1, k |-> k - 1])
  \/ \E h \in Hnds, g \in Grds : HFromG(h, g) /\ A([op |-> "HFromG", h |-> h - 1, g |-> g - 1])
  \/ \E h \in Hnds, g \in Grds : ~SameSlot(g, hnd[h]) /\ \E m \in BOOLEAN : GFromH(g, h, m) /\ A([op |-> "GFromH", g |-> g - 1, h |-> h - 1, how |-> IF m THEN 1 ELSE 0])
  \/ \E g, k \in Grds : g # k /\ ~SameSlot(g, grd[k]) /\ GMove(g, k) /\ A([op |-> "GMove", g |-> g - 1, k |-> k - 1])
  \/ \E g \in Grds : GSelf(g) /\ A([op |-> "GMove", g |-> g - 1, k |-> g - 1])
  \/ \E g \in Grds : GGone(g) /\ A([op |-> "GGone", g |-> g - 1])
  \/ \E s \in Sigs : SClear(s) /\ A([op |-> "SClear", s |-> s - 1])
  \/ \E s \in Sigs : SGone(s) /\ A([op |-> "SGone", s |-> s - 1])
  \/ \E s, p \in Sigs : SMove(s, p) /\ A([op |-> "SMove", s |-> s - 1, p |-> p - 1])
  \/ \E s \in Sigs : UNCHANGED svars /\ A([op |-> "Emit", s |-> s - 1, v |-> 7])
MCInit == SInit /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Nxt]_vars
MCView == <<conn, hnd, grd>>
Emitted == PrintT("@T " \o ToJson(<<ToString(MCView), act', ToString(MCView')>>))
\* a slot is disconnected only by something entitled to
Entitled == [][\A id \in Alive : id \notin Alive' =>
                \/ act'.op = "HDisc" /\ hnd[act'.h + 1] = id
                \/ act'.op \in {"GDisc", "GFromH", "GMove", "GGone", "GConnect"} /\ grd[act'.g + 1] = id
                \/ act'.op \in {"SClear", "SGone", "SMove"} /\ id \in conn[act'.s + 1]]_vars
\* what is moved into itself keeps what it had
SelfKeeps == [][(act'.op = "GMove" /\ act'.g = act'.k) \/ (act'.op = "SMove" /\ act'.s = act'.p) => UNCHANGED svars]_vars
\* copies of a connection always agree, and a slot never comes back
Agree == \A h, k \in Hnds : hnd[h] = hnd[k] => HConn(h) = HConn(k)
NoRevival == [][\A h \in Hnds : hnd[h] # 0 /\ ~HConn(h) /\ hnd'[h] = hnd[h] /\ act'.op # "HConnect" => hnd'[h] \notin UNION {conn'[s] : s \in Sigs}]_vars
============================================================================
