------------------------------- MODULE Pimpl -------------------------------
(* Owning holders: has[o] (0 or 1 object), x[o] its value, at[o] its place.  *)
(* Inline: the holder stores its object in itself and always has one.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Obj, Unused
VARIABLES has, x, at, inline
pvars == <<has, x, at, inline>>
Set(o, h, v, a) == /\ has' = [has EXCEPT ![o] = h] /\ x' = [x EXCEPT ![o] = IF h = 1 THEN v ELSE 0]
                   /\ at' = [at EXCEPT ![o] = IF h = 1 THEN a ELSE Unused] /\ UNCHANGED inline
New(o, h, v, a)  == (inline => h = 1) /\ Set(o, h, v, a)
Emplace(o, v, a) == ~inline /\ has[o] = 0 /\ Set(o, 1, v, a)
Reset(o)         == ~inline /\ Set(o, 0, 0, Unused)
Assign(o, v)     == has[o] = 1 /\ Set(o, 1, v, at[o])
Gone(o)          == Set(o, 0, 0, Unused)
\* an equal and independent object, or none
Copy(o, p, a) == IF o = p THEN has[o] = 1 => Set(o, 1, x[o], a) ELSE Set(o, has[p], x[p], a)
CopySelf(o, a) == Set(o, has[o], x[o], a)
\* the object's own constructor or assignment threw: the source is untouched, the target is as before or, on the heap,
\* empty; a holder whose constructor threw does not exist
CopyFailed(o, p, a) == o # p /\ has[p] = 1 /\ (UNCHANGED pvars \/ (~inline /\ Set(o, 0, 0, Unused)))
BornFailed(o) == Set(o, 0, 0, Unused)
\* inline: the value goes, the source keeps an object, whose value w is the one T leaves behind
MoveInline(o, p, w) == /\ inline /\ o # p
                       /\ x' = [x EXCEPT ![o] = x[p], ![p] = w] /\ UNCHANGED <<has, at, inline>>
\* otherwise the object itself goes; the source is left empty or with what the target had
MoveHeap(o, p, swap) == /\ ~inline /\ o # p
                        /\ has' = [has EXCEPT ![o] = has[p], ![p] = IF swap THEN has[o] ELSE 0]
                        /\ x'   = [x EXCEPT ![o] = x[p], ![p] = IF swap THEN x[o] ELSE 0]
                        /\ at'  = [at EXCEPT ![o] = at[p], ![p] = IF swap THEN at[o] ELSE Unused]
                        /\ UNCHANGED inline
MoveSelf(o) == UNCHANGED pvars
Owned == {at[o] : o \in {q \in Obj : has[q] = 1}}
PimplOK == /\ \A o \in Obj : has[o] = 0 => x[o] = 0 /\ at[o] = Unused
           /\ Cardinality(Owned) = Cardinality({o \in Obj : has[o] = 1})    \* no object has two owners
============================================================================
