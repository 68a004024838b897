------------------------------- MODULE Sparse -------------------------------
(* Strided pointers: a byte address and a stride, both integers of any size. *)
EXTENDS Big
CONSTANTS Obj
VARIABLES sp
Set(o, a, st)  == sp' = [sp EXCEPT ![o] = [a |-> a, st |-> st]]
At(o, n)       == Add(sp[o].a, Mul(n, sp[o].st))      \* address of element n
Copy(o, p)     == Set(o, sp[p].a, sp[p].st)
Offset(o, p, n) == Set(o, At(p, n), sp[p].st)
SetPtr(o, a)   == Set(o, a, sp[o].st)
SetStride(o, st) == Set(o, sp[o].a, st)
Null(o)        == Set(o, Zero, Zero)
\* number of strides between two pointers
Steps(o, p, k) == sp[o].st # Zero /\ Mul(k, sp[o].st) = Sub(sp[o].a, sp[p].a)
Look           == UNCHANGED sp
=============================================================================
