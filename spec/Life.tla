------------------------------- MODULE Life -------------------------------
(* Element lifetimes.  Every element lives at a place (an address); element *)
(* operations recorded during a container call are replayed one by one.     *)
(*   <<0, a>> construct at a      <<1, a>> destroy at a                      *)
(*   <<2, a>> read a (source of a copy or move, or a comparison)             *)
(*   <<3, a>> assign to a         <<4, a>> a construction at a that threw    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
\* the places alive after the element operation e, or Bad when it is not allowed
Bad == {-1}
LifeStep(live, e) ==
    IF live = Bad THEN Bad
    ELSE CASE e[1] = 0 -> IF e[2] \in live THEN Bad ELSE live \cup {e[2]}
           [] e[1] = 1 -> IF e[2] \in live THEN live \ {e[2]} ELSE Bad
           [] e[1] \in {2, 3} -> IF e[2] \in live THEN live ELSE Bad
           [] e[1] = 4 -> IF e[2] \in live THEN Bad ELSE live
           [] OTHER -> Bad
Lives(live, evs) == FoldLeft(LifeStep, live, evs)
\* live elements are exactly those of the containers, each owned once
Exact(live, addr) ==
    /\ live # Bad
    /\ live = UNION {{addr[o][i] : i \in 1..Len(addr[o])} : o \in DOMAIN addr}
    /\ \A o \in DOMAIN addr : Cardinality({addr[o][i] : i \in 1..Len(addr[o])}) = Len(addr[o])
    /\ \A o, p \in DOMAIN addr : o # p => {addr[o][i] : i \in 1..Len(addr[o])} \cap {addr[p][i] : i \in 1..Len(addr[p])} = {}
===========================================================================
