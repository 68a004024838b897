------------------------------- MODULE Vec -------------------------------
(* Bounded and unbounded sequence containers: FixedVector, HybridVector,    *)
(* StackVector and StackArray.  seq[o] is the ideal sequence of object o;   *)
(* cap[o] is its capacity (Inf: it grows to the heap).  Positions are       *)
(* 0-based, as in the C++ interface.  MOVED is the value a moved-from       *)
(* element shows.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Obj, Inf
VARIABLES seq, cap
vvars == <<seq, cap>>

MOVED == -1

Room(o, n)  == n >= 0 /\ (cap[o] = Inf \/ n <= cap[o])
Put(o, s)   == Room(o, Len(s)) /\ seq' = [seq EXCEPT ![o] = s] /\ UNCHANGED cap
At(s, i)    == s[i + 1]
IsPos(s, i) == i >= 0 /\ i < Len(s)
Times(n, v) == [i \in 1..n |-> v]

InsertAt(s, i, v)    == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))
RemoveRange(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))
Resized(s, n, v)     == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Times(n - Len(s), v)
Rev(s)               == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* construction: the object is rebuilt, its previous elements are gone *)
New(o, s)            == Put(o, s)
(* a stack container is given its storage when it is built *)
NewCap(o, c, s)      == Len(s) <= c /\ seq' = [seq EXCEPT ![o] = s] /\ cap' = [cap EXCEPT ![o] = c]
Push(o, v)           == Put(o, Append(seq[o], v))
PushAlias(o, i)      == IsPos(seq[o], i) /\ Push(o, At(seq[o], i))
Insert(o, i, v)      == i \in 0..Len(seq[o]) /\ Put(o, InsertAt(seq[o], i, v))
InsertAlias(o, i, j) == IsPos(seq[o], j) /\ Insert(o, i, At(seq[o], j))
Erase(o, i)          == IsPos(seq[o], i) /\ Put(o, RemoveRange(seq[o], i, i + 1))
EraseRange(o, i, j)  == i \in 0..Len(seq[o]) /\ j \in i..Len(seq[o]) /\ Put(o, RemoveRange(seq[o], i, j))
Pop(o)               == seq[o] # <<>> /\ Put(o, SubSeq(seq[o], 1, Len(seq[o]) - 1))
Clear(o)             == Put(o, <<>>)
Resize(o, n, v)      == Put(o, Resized(seq[o], n, v))
ResizeAlias(o, n, i) == IsPos(seq[o], i) /\ Put(o, Resized(seq[o], n, At(seq[o], i)))
Reserve(o, n)        == Room(o, n) /\ UNCHANGED vvars
Set(o, i, v)         == IsPos(seq[o], i) /\ Put(o, [seq[o] EXCEPT ![i + 1] = v])
SetAll(o, v)         == Put(o, Times(Len(seq[o]), v))
CopyFrom(o, p)       == Put(o, seq[p])
\* the content left in a moved-from heap-capable container is unspecified, but valid
MoveFrom(o, p, rest) == /\ o # p /\ Room(o, Len(seq[p])) /\ Room(p, Len(rest))
                        /\ seq' = [seq EXCEPT ![o] = seq[p], ![p] = rest]
                        /\ UNCHANGED cap
\* a moved stack container gives its storage away
StackMove(o, p)      == /\ o # p
                        /\ seq' = [seq EXCEPT ![o] = seq[p], ![p] = <<>>]
                        /\ cap' = [cap EXCEPT ![o] = cap[p], ![p] = 0]
\* a container moved into itself: a stack container is unchanged, the others stay valid
SelfMove(o, rest)    == Put(o, rest)
StackSelfMove(o)     == UNCHANGED <<seq, cap>>

VecType == \A o \in Obj : cap[o] = Inf \/ Len(seq[o]) <= cap[o]
==========================================================================
