------------------------------ MODULE MC_Vec ------------------------------
(* Bounded closure of Vec.  Object 1 takes every operation from every        *)
(* sequence over Vals of length <= L; object 2 is the other side of copies   *)
(* and moves.  heap[o] is a ghost: whether a hybrid vector of inline         *)
(* capacity Inline has moved to the heap, so that every operation is driven  *)
(* in both modes and across the switch.                                      *)
EXTENDS Vec, Json, TLC
CONSTANTS L, Vals, Inline, KindOf      \* KindOf: "hybrid", "fixed", "stack", "array"
VARIABLES heap, act
vars == <<seq, cap, heap, act>>

Grow(o) == IF KindOf = "hybrid" /\ Len(seq'[o]) > Inline THEN TRUE ELSE heap[o]
Ghost1(o) == heap' = [heap EXCEPT ![o] = Grow(o)]
A(r) == act' = r

Seqs == UNION {[1..k -> Vals] : k \in 0..L}
Uniform == UNION {{Times(k, v) : v \in Vals} : k \in 0..L}
Copies == KindOf \in {"hybrid", "fixed"}
Vector == KindOf # "array"

NewNext ==
  \/ /\ Copies
     /\ \/ \E s \in Seqs, h \in {2, 4} :
            New(1, s) /\ heap' = [heap EXCEPT ![1] = Len(s) > Inline /\ KindOf = "hybrid"] /\ A([op |-> "New", o |-> 0, how |-> h, b |-> s])
        \/ \E n \in 0..L, v \in Vals :
            New(1, Times(n, v)) /\ heap' = [heap EXCEPT ![1] = n > Inline /\ KindOf = "hybrid"] /\ A([op |-> "New", o |-> 0, how |-> 1, n |-> n, v |-> v])
  \/ /\ KindOf = "stack"
     /\ NewCap(1, L, <<>>) /\ UNCHANGED heap /\ A([op |-> "New", o |-> 0, how |-> 0, n |-> L])
  \/ /\ KindOf = "array"
     /\ \E n \in 0..L : \/ NewCap(1, n, Times(n, 0)) /\ UNCHANGED heap /\ A([op |-> "New", o |-> 0, how |-> 0, n |-> n])
                        \/ \E s \in [1..n -> Vals] : NewCap(1, n, s) /\ UNCHANGED heap /\ A([op |-> "New", o |-> 0, how |-> 1, n |-> n, b |-> s])
GrowNext ==
  /\ Vector
  /\ \/ \E v \in Vals, h \in 0..2 : Push(1, v) /\ A([op |-> "Push", o |-> 0, v |-> v, how |-> h])
     \/ \E i \in 0..(L-1), h \in 0..1 : PushAlias(1, i) /\ A([op |-> "PushAlias", o |-> 0, i |-> i, how |-> h])
     \/ \E i \in 0..L, v \in Vals, h \in 0..3 : Insert(1, i, v) /\ A([op |-> "Insert", o |-> 0, i |-> i, v |-> v, how |-> h])
     \/ \E i \in 0..L, j \in 0..(L-1), h \in 0..1 : InsertAlias(1, i, j) /\ A([op |-> "InsertAlias", o |-> 0, i |-> i, j |-> j, how |-> h])
     \/ \E n \in 0..L, v \in Vals : Resize(1, n, v) /\ A([op |-> "Resize", o |-> 0, n |-> n, v |-> v, how |-> 1])
     \/ \E n \in 0..L, i \in 0..(L-1) : ResizeAlias(1, n, i) /\ A([op |-> "ResizeAlias", o |-> 0, n |-> n, i |-> i])
  /\ Ghost1(1)
ShrinkNext ==
  /\ Vector /\ UNCHANGED heap
  /\ \/ \E i \in 0..(L-1) : Erase(1, i) /\ A([op |-> "Erase", o |-> 0, i |-> i])
     \/ \E i \in 0..L, j \in 0..L : EraseRange(1, i, j) /\ A([op |-> "EraseRange", o |-> 0, i |-> i, j |-> j - i])
     \/ Pop(1) /\ A([op |-> "Pop", o |-> 0])
     \/ Clear(1) /\ A([op |-> "Clear", o |-> 0])
ReserveNext ==
  /\ Copies
  /\ \E n \in 0..L : Reserve(1, n) /\ heap' = [heap EXCEPT ![1] = heap[1] \/ (KindOf = "hybrid" /\ n > Inline)]
                     /\ A([op |-> "Reserve", o |-> 0, n |-> n])
SetNext ==
  /\ UNCHANGED heap
  /\ \/ \E i \in 0..(L-1), v \in Vals, h \in 0..6 :
          /\ IsPos(seq[1], i) /\ (h = 4 => i = 0) /\ (h = 5 => i = Len(seq[1]) - 1)
          /\ Set(1, i, v) /\ A([op |-> "Set", o |-> 0, i |-> i, v |-> v, how |-> h])
     \/ KindOf = "array" /\ \E v \in Vals : SetAll(1, v) /\ A([op |-> "SetAll", o |-> 0, v |-> v])
     \/ UNCHANGED vvars /\ A([op |-> "Observe", o |-> 0])
CrossNext ==
  \/ /\ Copies
     /\ \/ CopyFrom(1, 1) /\ UNCHANGED heap /\ A([op |-> "CopyAssign", o |-> 0, p |-> 0])
        \/ CopyFrom(1, 2) /\ heap' = [heap EXCEPT ![1] = heap[1] \/ heap[2]] /\ A([op |-> "CopyAssign", o |-> 0, p |-> 1])
        \/ CopyFrom(1, 2) /\ heap' = [heap EXCEPT ![1] = heap[2]] /\ A([op |-> "CopyCtor", o |-> 0, p |-> 1])
        \/ MoveFrom(1, 2, <<>>) /\ heap' = [heap EXCEPT ![1] = heap[1] \/ heap[2]] /\ A([op |-> "MoveAssign", o |-> 0, p |-> 1, clr |-> 1])
        \/ MoveFrom(1, 2, <<>>) /\ heap' = [heap EXCEPT ![1] = heap[2]] /\ A([op |-> "MoveCtor", o |-> 0, p |-> 1, clr |-> 1])
        \/ SelfMove(1, <<>>) /\ UNCHANGED heap /\ A([op |-> "MoveAssign", o |-> 0, p |-> 0, clr |-> 1])
  \/ /\ ~Copies /\ UNCHANGED heap
     /\ \/ StackMove(1, 2) /\ A([op |-> "MoveAssign", o |-> 0, p |-> 1])
        \/ StackSelfMove(1) /\ A([op |-> "MoveAssign", o |-> 0, p |-> 0])
        \/ StackMove(1, 2) /\ A([op |-> "MoveCtor", o |-> 0, p |-> 1])
OtherNext ==
  \/ /\ Vector /\ Push(2, 2) /\ Ghost1(2) /\ A([op |-> "Push", o |-> 1, v |-> 2, how |-> 2])
  \/ /\ Vector /\ Pop(2) /\ UNCHANGED heap /\ A([op |-> "Pop", o |-> 1])
  \/ /\ Copies /\ New(2, <<>>) /\ heap' = [heap EXCEPT ![2] = FALSE] /\ A([op |-> "New", o |-> 1, how |-> 0])
  \/ /\ KindOf = "stack" /\ NewCap(2, L, <<>>) /\ UNCHANGED heap /\ A([op |-> "New", o |-> 1, how |-> 0, n |-> L])
  \/ /\ KindOf = "array" /\ \E n \in 0..L : NewCap(2, n, Times(n, 2)) /\ UNCHANGED heap
        /\ A([op |-> "New", o |-> 1, how |-> 1, n |-> n, b |-> Times(n, 2)])

InitCap == CASE KindOf = "hybrid" -> Inf [] KindOf = "array" -> 0 [] OTHER -> L
MCInit == /\ seq = [o \in Obj |-> <<>>] /\ cap = [o \in Obj |-> InitCap] /\ heap = [o \in Obj |-> FALSE]
          /\ act = [op |-> "Begin"]
MCNext == NewNext \/ GrowNext \/ ShrinkNext \/ ReserveNext \/ SetNext \/ CrossNext \/ OtherNext
Bound == \A o \in Obj : Len(seq[o]) <= L
Emit  == (\A o \in Obj : Len(seq'[o]) <= L) => PrintT("@T " \o ToJson(<<<<seq, cap, heap>>, act', <<seq', cap', heap'>>>>))
MCSpec == MCInit /\ [][MCNext]_vars
MCView == <<seq, cap, heap>>

\* ---- design properties ------------------------------------------------
Laws == \A o \in Obj : LET s == seq[o] n == Len(s) IN
    /\ \A i \in 0..n, v \in Vals :
          /\ Len(InsertAt(s, i, v)) = n + 1
          /\ At(InsertAt(s, i, v), i) = v
          /\ RemoveRange(InsertAt(s, i, v), i, i + 1) = s
          /\ \A k \in 0..(n - 1) : At(InsertAt(s, i, v), IF k < i THEN k ELSE k + 1) = At(s, k)
    /\ \A i \in 0..n, j \in 0..n : i <= j =>
          /\ Len(RemoveRange(s, i, j)) = n - (j - i)
          /\ \A k \in 0..(n - 1) : (k < i => At(RemoveRange(s, i, j), k) = At(s, k))
                               /\ (k >= j => At(RemoveRange(s, i, j), k - (j - i)) = At(s, k))
    /\ \A k \in 0..(L + 1), v \in Vals : Len(Resized(s, k, v)) = k
    /\ Rev(Rev(s)) = s
Frame == [][\A o \in Obj : seq'[o] # seq[o] =>
              \/ act'.o = o - 1
              \/ ("p" \in DOMAIN act' /\ act'.p = o - 1 /\ act'.op \in {"MoveAssign", "MoveCtor"})]_vars
\* moving or copying never loses the source's elements
Transfer == [][(act'.op \in {"CopyAssign", "CopyCtor", "MoveAssign", "MoveCtor"} /\ ~(Copies /\ act'.op = "MoveAssign" /\ act'.p = 0))
                 => seq'[1] = seq[act'.p + 1]]_vars
===========================================================================
