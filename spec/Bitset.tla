------------------------------ MODULE Bitset ------------------------------
(* Abstract machine of Nz::Bitset: every object is a bit sequence.           *)
EXTENDS BitSeq, TLC
CONSTANT Obj
VARIABLE bs                     \* object -> bit sequence

BsInit == bs = [o \in Obj |-> <<>>]
Put(o, b) == bs' = [bs EXCEPT ![o] = b]

\* ---- B01: mutators -----------------------------------------------------
Fill(o, n, v)    == Put(o, BFill(n, v))
Resize(o, n, v)  == Put(o, BResize(bs[o], n, v))
Clear(o)         == Put(o, <<>>)
Reserve(o)       == Put(o, bs[o])
Flip(o)          == Put(o, BNot(bs[o]))
Reverse(o)       == Put(o, BRev(bs[o]))
SetAll(o, v)     == Put(o, BFill(Len(bs[o]), v))
Set1(o, i, v)    == i < Len(bs[o]) /\ Put(o, BSet(bs[o], i, v))
\* setting beyond the size enlarges (zero filled); resetting beyond the size does nothing
USet(o, i, v)    == IF i < Len(bs[o]) THEN Put(o, BSet(bs[o], i, v))
                    ELSE IF v = 1 THEN Put(o, BSet(BResize(bs[o], i + 1, 0), i, 1))
                    ELSE Put(o, bs[o])
\* write the block starting at bit `off`; bits beyond the size are dropped
SetBlock(o, off, w) == off < Len(bs[o]) /\ Put(o, BOverlay(bs[o], off, w))
Shl(o, n)        == Put(o, BShl(bs[o], n))
Shr(o, n)        == Put(o, BShr(bs[o], n))
ShlOf(o, p, n)   == Put(o, BShl(bs[p], n))
ShrOf(o, p, n)   == Put(o, BShr(bs[p], n))
Not(o, p)        == Put(o, BNot(bs[p]))
And(o, p, q)     == Put(o, BAnd(bs[p], bs[q]))
Or(o, p, q)      == Put(o, BOr(bs[p], bs[q]))
Xor(o, p, q)     == Put(o, BXor(bs[p], bs[q]))
Copy(o, p)       == Put(o, bs[p])
MoveTo(o, p)     == o # p /\ bs' = [bs EXCEPT ![o] = bs[p], ![p] = <<>>]
Swap(o, p)       == bs' = [bs EXCEPT ![o] = bs[p], ![p] = bs[o]]
\* operations through a bit reference; k selects the operator
BitOpVal(b, i, j, k, v) ==
    LET x == BAt(b, i) IN
    CASE k = 0 -> v
      [] k = 1 -> 1 - x
      [] k = 2 -> 0
      [] k = 3 -> v
      [] k = 4 -> IF v = 1 THEN 1 ELSE x
      [] k = 5 -> IF v = 1 THEN x ELSE 0
      [] k = 6 -> IF v = 1 THEN 1 - x ELSE x
      [] k = 7 -> IF v = 1 THEN 0 ELSE x
      [] k = 8 -> BAt(b, j)
BitOp(o, i, j, k, v) == i < Len(bs[o]) /\ Put(o, BSet(bs[o], i, BitOpVal(bs[o], i, j, k, v)))

\* ---- B04: import / export ----------------------------------------------
Str(o, b)        == Put(o, b)
\* n bits of src appended, zeros once src is exhausted
AppendBits(o, src, n) == Put(o, bs[o] \o BSlice(src, 0, n))
\* n bits of the byte sequence starting at bit off
Write(o, src, off, n) == Put(o, bs[o] \o BSlice(src, off, n))
FromPtr(o, src, n) == Put(o, BSlice(src, 0, n))
\* the value is kept; for integers wider than a block the size may be anything
\* between the highest set bit and the width of the integer
FromInt(o, src, n) == n > BLast(src) /\ n <= Len(src) /\ Put(o, BSlice(src, 0, n))

\* ---- B02 / B03: pure observations of bit sequences -----------------------
Count(b) == BCount(b)
FindFirst(b) == BFirst(b)
FindNext(b, i) == BFirstFrom(b, i + 1)
TestAll(b) == \A i \in 1..Len(b) : b[i] = 1
TestAny(b) == \E i \in 1..Len(b) : b[i] = 1
Intersects(a, b) == \E i \in 1..BitMin(Len(a), Len(b)) : a[i] = 1 /\ b[i] = 1
Equal(a, b) == BCmp(a, b) = 0
Less(a, b) == BCmp(a, b) = -1

TypeOK == \A o \in Obj : IsBits(bs[o])
===========================================================================
