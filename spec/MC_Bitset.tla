---------------------------- MODULE MC_Bitset ----------------------------
(* Bounded closure of Bitset: every operation from every reachable state.    *)
(* `act` is an observation variable (hidden by the VIEW): the call made.     *)
EXTENDS Bitset, Json
CONSTANTS L, Props          \* longest bitset; properties whose operations are taken
VARIABLE act
Small(S) == {x \in S : \A o \in Obj : Len(x[o]) <= L}
vars == <<bs, act>>
Seqs(n) == UNION {[1..k -> {0, 1}] : k \in 0..n}
B01Next ==
    \E o \in Obj :
       \/ \E n \in 0..L, v \in 0..1 : \/ Fill(o, n, v)   /\ act' = [op |-> "Fill", o |-> o - 1, n |-> n, v |-> v]
                                      \/ Resize(o, n, v) /\ act' = [op |-> "Resize", o |-> o - 1, n |-> n, v |-> v]
       \/ Clear(o)   /\ act' = [op |-> "Clear", o |-> o - 1]
       \/ Reserve(o) /\ act' = [op |-> "Reserve", o |-> o - 1, n |-> L]
       \/ Flip(o)    /\ act' = [op |-> "Flip", o |-> o - 1]
       \/ Reverse(o) /\ act' = [op |-> "Reverse", o |-> o - 1]
       \/ \E v \in 0..1 : SetAll(o, v) /\ act' = [op |-> "SetAll", o |-> o - 1, v |-> v]
       \/ \E i \in 0..(L-1), v \in 0..1 : \/ Set1(o, i, v) /\ act' = [op |-> "Set1", o |-> o - 1, i |-> i, v |-> v]
                                          \/ USet(o, i, v) /\ act' = [op |-> "USet", o |-> o - 1, i |-> i, v |-> v]
       \/ \E w \in [1..L -> {0, 1}] : SetBlock(o, 0, w) /\ act' = [op |-> "SetBlock", o |-> o - 1, i |-> 0, w |-> BVal(w)]
       \/ \E n \in 0..(L+1), h \in 0..2 : \/ Shl(o, n) /\ act' = [op |-> "Shl", o |-> o - 1, n |-> n, how |-> h]
                                          \/ Shr(o, n) /\ act' = [op |-> "Shr", o |-> o - 1, n |-> n, how |-> h]
       \/ \E p \in Obj : \/ Not(o, p)    /\ act' = [op |-> "Not", o |-> o - 1, p |-> p - 1]
                         \/ Copy(o, p)   /\ act' = [op |-> "Copy", o |-> o - 1, p |-> p - 1]
                         \/ MoveTo(o, p) /\ act' = [op |-> "Move", o |-> o - 1, p |-> p - 1]
                         \/ Swap(o, p)   /\ act' = [op |-> "Swap", o |-> o - 1, p |-> p - 1]
                         \/ \E q \in Obj, h \in 0..1 :
                               \/ And(o, p, q) /\ act' = [op |-> "And", o |-> o - 1, p |-> p - 1, q |-> q - 1, how |-> h]
                               \/ Or(o, p, q)  /\ act' = [op |-> "Or", o |-> o - 1, p |-> p - 1, q |-> q - 1, how |-> h]
                               \/ Xor(o, p, q) /\ act' = [op |-> "Xor", o |-> o - 1, p |-> p - 1, q |-> q - 1, how |-> h]
       \/ \E i \in 0..(L-1), k \in 0..8, v \in 0..1, j \in 0..(L-1) :
             /\ j < Len(bs[o]) /\ (k # 8 => j = 0)
             /\ BitOp(o, i, j, k, v)
             /\ act' = [op |-> "Bit", o |-> o - 1, i |-> i, j |-> j, how |-> k, v |-> v]
\* set-up moves for the observers: any pattern into any object
StrNext == \E o \in Obj, b \in Seqs(L) : Str(o, b) /\ act' = [op |-> "Str", o |-> o - 1, b |-> b]
B02Next == \/ StrNext
           \/ UNCHANGED bs /\ \E o \in Obj : \/ act' = [op |-> "Observe", o |-> o - 1]
                                             \/ \E p \in Obj : act' = [op |-> "Intersects", o |-> o - 1, p |-> p - 1]
B03Next == \/ StrNext
           \/ UNCHANGED bs /\ \E o, p \in Obj : act' = [op |-> "Compare", o |-> o - 1, p |-> p - 1]
B04Next ==
    \E o \in Obj :
       \/ \E b \in Seqs(L), h \in 0..4 : Str(o, b) /\ act' = [op |-> "Str", o |-> o - 1, b |-> b, how |-> h]
       \/ Clear(o) /\ act' = [op |-> "Clear", o |-> o - 1]
       \/ \E n \in 0..(L - Len(bs[o])), w \in [1..L -> {0, 1}] :
             \/ AppendBits(o, w, n) /\ act' = [op |-> "Append", o |-> o - 1, n |-> n, w |-> BVal(w), t |-> BVal(w) % 4]
             \/ \E off \in 0..1 : Write(o, w, off, n) /\ act' = [op |-> "Write", o |-> o - 1, n |-> n, off |-> off, bytes |-> BVal(w), how |-> 1]
       \/ UNCHANGED bs /\ \/ \E t \in 0..3 : act' = [op |-> "ToInt", o |-> o - 1, t |-> t]
                          \/ act' = [op |-> "ToStr", o |-> o - 1]
MCInit == BsInit /\ act = [op |-> "Begin"]
MCNext == \/ "B01" \in Props /\ B01Next
          \/ "B02" \in Props /\ B02Next
          \/ "B03" \in Props /\ B03Next
          \/ "B04" \in Props /\ B04Next
Bound == \A o \in Obj : Len(bs[o]) <= L
MCSpec == MCInit /\ [][MCNext]_vars
MCView == bs
Emit == PrintT("@T " \o ToJson(<<bs, act', bs'>>))

\* ---- design properties ---------------------------------------------------
\* laws the abstract operations must satisfy, evaluated in every reachable state
Laws == \A o \in Obj : LET b == bs[o] n == Len(b) IN
    /\ BNot(BNot(b)) = b
    /\ BRev(BRev(b)) = b
    /\ Count(b) + Count(BNot(b)) = n
    /\ BCount(BXor(b, b)) = 0
    /\ BOnes(b) = [k \in 1..Count(b) |-> BOnes(b)[k]]
    /\ \A k \in 0..(n + 1) : /\ Len(BShl(b, k)) = n
                             /\ BShr(BShl(b, k), k) = BResize(BResize(b, BitMax(0, n - k), 0), n, 0)
                             /\ BShl(b, k) = BRev(BShr(BRev(b), k))
    /\ TestAny(b) <=> FindFirst(b) # -1
    /\ TestAll(b) <=> ~TestAny(BNot(b))
    /\ (b # <<>> /\ b[n] = 1) => BLast(b) = n - 1
PairLaws == \A o, p \in Obj : LET a == bs[o] b == bs[p] IN
    /\ Less(a, b) <=> BVal(a) < BVal(b)               \* the order is the order of the numbers
    /\ Equal(a, b) <=> BVal(a) = BVal(b)
    /\ Cardinality({x \in 1..3 : (x = 1 /\ Less(a, b)) \/ (x = 2 /\ Equal(a, b)) \/ (x = 3 /\ Less(b, a))}) = 1
    /\ Intersects(a, b) <=> TestAny(BAnd(a, b))
    /\ BNot(BAnd(a, b)) = BOr(BNot(BResize(a, BitMax(Len(a), Len(b)), 0)), BNot(BResize(b, BitMax(Len(a), Len(b)), 0)))
    /\ BVal(BXor(a, b)) = BVal(BOr(a, b)) - BVal(BAnd(a, b))
\* an operation changes the objects it names only
Frame == [][\A o \in Obj : bs'[o] # bs[o] => "o" \in DOMAIN act' /\ (act'.o = o - 1 \/ ("p" \in DOMAIN act' /\ act'.p = o - 1))]_vars
==========================================================================
