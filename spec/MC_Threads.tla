----------------------------- MODULE MC_Threads -----------------------------
(***************************************************************************)
(* Threads over a memory of cells.  An object's value is one cell; a call  *)
(* reads and writes cells in steps, others stepping in between.  Reading   *)
(* object o takes two steps: it works out a part, and then the result from *)
(* the part.  Where that part is kept decides everything:                  *)
(*   Scratch = "own"     in the call itself (the library as it is)         *)
(*   Scratch = "shared"  in one cell for everybody (a static buffer)       *)
(*   Scratch = "object"  in the object (a mutable member, as a signal keeps*)
(*                       its place in the list of slots while emitting)    *)
(* Race: two threads about to touch the same cell, one of them writing.    *)
(* Serial: what a call gives is what it would give alone.                  *)
(* Only "own" has neither Race nor a wrong result; the other two are       *)
(* checked to be rejected.                                                 *)
(***************************************************************************)
EXTENDS Threads, TLC, Json
CONSTANTS Scratch, MaxVal
VARIABLES val, cell, own, at, out
vars == <<call, seen, val, cell, own, at, out>>
Part(v) == v + 10
Fin(p) == 2 * p
Cells == {<<"value", o>> : o \in Obj} \cup {<<"part", o>> : o \in Obj} \cup {<<"buffer">>}
Place(o) == IF Scratch = "shared" THEN <<"buffer">> ELSE <<"part", o>>
Init == /\ ThInit /\ val = [o \in Obj |-> 0] /\ cell = [c \in Cells |-> 0] /\ own = [t \in Thread |-> 0]
        /\ at = [t \in Thread |-> 0] /\ out = [t \in Thread |-> <<>>]
Go(t) == \E o \in Obj, w \in BOOLEAN : Start(t, o, w, 0) /\ at' = [at EXCEPT ![t] = 1] /\ out' = [out EXCEPT ![t] = <<>>] /\ UNCHANGED <<val, cell, own>>
\* first step: a change is made, or the part worked out
First(t) == /\ at[t] = 1 /\ at' = [at EXCEPT ![t] = 2]
            /\ LET o == call[t][1] IN
               IF call[t][2] THEN val' = [val EXCEPT ![o] = (@ + 1) % MaxVal] /\ UNCHANGED <<cell, own>>
               ELSE IF Scratch = "own" THEN own' = [own EXCEPT ![t] = Part(val[o])] /\ UNCHANGED <<val, cell>>
               ELSE cell' = [cell EXCEPT ![Place(o)] = Part(val[o])] /\ UNCHANGED <<val, own>>
            /\ UNCHANGED <<call, seen, out>>
Result(t) == Fin(IF Scratch = "own" THEN own[t] ELSE cell[Place(call[t][1])])
Last(t) == /\ at[t] = 2 /\ at' = [at EXCEPT ![t] = 0]
           /\ LET o == call[t][1] w == call[t][2] r == IF w THEN 0 ELSE Result(t) IN
              /\ out' = [out EXCEPT ![t] = IF w THEN <<>> ELSE <<r, Fin(Part(val[o]))>>]
              /\ call' = [call EXCEPT ![t] = <<>>]
              /\ seen' = IF w THEN [seen EXCEPT ![o] = Nothing] ELSE [seen EXCEPT ![o] = [k \in {0} |-> r]]
           /\ UNCHANGED <<val, cell, own>>
Next == \E t \in Thread : Go(t) \/ First(t) \/ Last(t)
Spec == Init /\ [][Next]_vars

\* the cells the next step of a thread reads and writes
Reads(t) == IF call[t] = <<>> THEN {} ELSE LET o == call[t][1] IN
            IF at[t] = 1 THEN {<<"value", o>>} ELSE IF call[t][2] \/ Scratch = "own" THEN {} ELSE {Place(o)}
Writes(t) == IF call[t] = <<>> \/ at[t] # 1 THEN {} ELSE LET o == call[t][1] IN
             IF call[t][2] THEN {<<"value", o>>} ELSE IF Scratch = "own" THEN {} ELSE {Place(o)}
NoRace == \A t, u \in Thread : t # u => Writes(t) \cap (Reads(u) \cup Writes(u)) = {}
Serial == \A t \in Thread : out[t] # <<>> => out[t][1] = out[t][2]
\* what Threads says of a return
AgreesWithSeen == [][\A t \in Thread : at[t] = 2 /\ at'[t] = 0 =>
                       LET c == call[t] IN Return(t, c[1], c[2], c[3], IF c[2] THEN 0 ELSE out'[t][1])]_vars
TypeOK == Contract /\ \A o \in Obj : val[o] \in 0..(MaxVal - 1)
Calls == <<call, at>>
\* every set of calls in progress at once, for the real threads to make
Code(t) == IF call'[t] = <<>> THEN -1 ELSE 2 * call'[t][1] + (IF call'[t][2] THEN 1 ELSE 0)
Emit == (call' # call /\ \A t \in Thread : at'[t] \in {0, 1}) => PrintT("@T " \o ToJson([t \in 1..Cardinality(Thread) |-> Code(t - 1)]))
=============================================================================
