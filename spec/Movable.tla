------------------------------ MODULE Movable ------------------------------
(* Wrappers whose moves do not leave a copy behind.                          *)
(*   kind "pointer", "literal": moving into a new wrapper resets the source; *)
(*        move assignment exchanges both, so that no handle is dropped       *)
(*   kind "value": the value itself is moved (Left: what its move leaves)    *)
EXTENDS Integers, Sequences
CONSTANTS Obj, Left
VARIABLES m, kind, zero       \* zero: null, the literal
mvars == <<m, kind, zero>>
K == UNCHANGED <<kind, zero>>
New(o, v)      == m' = [m EXCEPT ![o] = v] /\ K
Default(o)     == m' = [m EXCEPT ![o] = IF kind = "value" THEN 0 ELSE zero] /\ K
CopyFrom(o, p) == m' = [m EXCEPT ![o] = m[p]] /\ K
MoveNew(o, p)  == o # p /\ m' = [m EXCEPT ![o] = m[p], ![p] = IF kind = "value" THEN Left ELSE zero] /\ K
MoveAssign(o, p) == o # p /\ m' = [m EXCEPT ![o] = m[p], ![p] = IF kind = "value" THEN Left ELSE m[o]] /\ K
SelfMove(o)    == kind # "value" /\ UNCHANGED mvars
\* payload given away through an rvalue accessor
Take(o, ret)   == ret = m[o] /\ m' = [m EXCEPT ![o] = IF kind = "value" THEN Left ELSE m[o]] /\ K
Look           == UNCHANGED mvars
===========================================================================
