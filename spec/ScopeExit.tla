---------------------------- MODULE ScopeExit ----------------------------
(* Scope-exit objects: fn[o] is the callback o still has to run (0: none).   *)
(* `calls` is the sequence of callbacks run by an operation.                 *)
EXTENDS Integers, Sequences
CONSTANTS Obj
VARIABLES fn
Due(o) == IF fn[o] = 0 THEN <<>> ELSE <<fn[o]>>
New(o, id)     == fn[o] = 0 /\ fn' = [fn EXCEPT ![o] = id]
Gone(o, calls) == calls = Due(o) /\ fn' = [fn EXCEPT ![o] = 0]
Call(o, calls) == calls = Due(o) /\ fn' = [fn EXCEPT ![o] = 0]
Reset(o)       == fn' = [fn EXCEPT ![o] = 0]
\* the callback replaced runs; should it throw, the other object keeps its own
Move(o, p, calls, threw) == /\ o # p /\ calls = Due(o)
                            /\ fn' = IF threw THEN [fn EXCEPT ![o] = 0] ELSE [fn EXCEPT ![o] = fn[p], ![p] = 0]
\* n deferred statements of a scope run in reverse order however the scope is left
Scope(n, calls) == calls = [k \in 1..n |-> n + 1 - k] /\ UNCHANGED fn
===========================================================================
