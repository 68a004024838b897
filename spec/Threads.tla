------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Several threads and several objects.  A call uses one object, either    *)
(* changing it or only reading it.  The contract of the library: no object *)
(* is changed by one thread while another uses it.  What it owes then:     *)
(* a call gives what it would give alone, so every reading of an object    *)
(* that nobody changes in between gives the same.                          *)
(*   call[t]    <<>>, or <<object, changes, key>>: what the thread is doing*)
(*   seen[o]    what readings of the object have given since it was last   *)
(*              changed: key |-> result                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Thread, Obj
VARIABLES call, seen
tvars == <<call, seen>>

Nothing == [k \in {} |-> ""]
ThInit == call = [t \in Thread |-> <<>>] /\ seen = [o \in Obj |-> Nothing]
Busy == {t \in Thread : call[t] # <<>>}
\* two calls that the contract forbids at the same time
Clash(c, d) == c[1] = d[1] /\ (c[2] \/ d[2])
Allowed(t, o, w) == call[t] = <<>> /\ \A u \in Busy : ~Clash(<<o, w>>, call[u])
Contract == \A t, u \in Busy : t # u => ~Clash(call[t], call[u])

Start(t, o, w, k) == Allowed(t, o, w) /\ call' = [call EXCEPT ![t] = <<o, w, k>>] /\ UNCHANGED seen
Return(t, o, w, k, r) == /\ call[t] = <<o, w, k>>
                         /\ call' = [call EXCEPT ![t] = <<>>]
                         /\ IF w THEN seen' = [seen EXCEPT ![o] = Nothing]
                            ELSE /\ k \in DOMAIN seen[o] => r = seen[o][k]
                                 /\ seen' = [seen EXCEPT ![o] = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN r ELSE @[x]]]
=============================================================================
