------------------------------ MODULE BitSeq ------------------------------
(* Finite bit sequences, least significant bit first.  The pure vocabulary   *)
(* shared by the specifications of bitsets, flag sets, integer utilities and *)
(* hashes.  Bit i (0-based) of b is b[i+1].                                  *)
EXTENDS Integers, Sequences, FiniteSets

BitMax(a, b) == IF a > b THEN a ELSE b
BitMin(a, b) == IF a < b THEN a ELSE b

IsBits(b) == \A i \in 1..Len(b) : b[i] \in {0, 1}
BFill(n, v) == [i \in 1..n |-> v]
BZeros(n) == BFill(n, 0)
BAt(b, i) == IF i >= 0 /\ i < Len(b) THEN b[i + 1] ELSE 0
\* first n bits of b, extended with v
BResize(b, n, v) == LET l == Len(b) IN [i \in 1..n |-> IF i <= l THEN b[i] ELSE v]
BSet(b, i, v) == [b EXCEPT ![i + 1] = v]
BNot(b) == [i \in 1..Len(b) |-> 1 - b[i]]
BAnd(a, b) == LET la == Len(a) lb == Len(b) IN [i \in 1..BitMax(la, lb) |-> IF i <= la /\ i <= lb THEN a[i] * b[i] ELSE 0]
BOr(a, b) == LET la == Len(a) lb == Len(b) IN
             [i \in 1..BitMax(la, lb) |-> IF (i <= la /\ a[i] = 1) \/ (i <= lb /\ b[i] = 1) THEN 1 ELSE 0]
BXor(a, b) == LET la == Len(a) lb == Len(b) IN
              [i \in 1..BitMax(la, lb) |-> IF (i <= la /\ a[i] = 1) # (i <= lb /\ b[i] = 1) THEN 1 ELSE 0]
BShl(b, k) == [i \in 1..Len(b) |-> IF i > k THEN b[i - k] ELSE 0]
BShr(b, k) == LET l == Len(b) IN [i \in 1..l |-> IF i + k <= l THEN b[i + k] ELSE 0]
BRev(b) == LET l == Len(b) IN [i \in 1..l |-> b[l + 1 - i]]
\* n bits of b starting at bit off, zero-extended
BSlice(b, off, n) == LET l == Len(b) IN [i \in 1..n |-> IF off + i <= l THEN b[off + i] ELSE 0]
\* b with the w bits starting at off replaced by (the first bits of) s, without growing
BOverlay(b, off, s) == [i \in 1..Len(b) |-> IF i > off /\ i <= off + Len(s) THEN s[i - off] ELSE b[i]]

BCount(b) == Cardinality({i \in 1..Len(b) : b[i] = 1})
\* 0-based positions of the ones, ascending
BOnes(b) == SelectSeq([i \in 1..Len(b) |-> i - 1], LAMBDA i : b[i + 1] = 1)
\* first one at position >= from, or -1
BFirstFrom(b, from) == LET n == Len(b) IN
                       IF \A i \in (from + 1)..n : b[i] = 0 THEN -1
                       ELSE (CHOOSE i \in (from + 1)..n : b[i] = 1 /\ \A j \in (from + 1)..(i - 1) : b[j] = 0) - 1
BFirst(b) == BFirstFrom(b, 0)
\* last one, or -1
BLast(b) == LET n == Len(b) IN
            IF \A i \in 1..n : b[i] = 0 THEN -1
            ELSE n - 1 - (CHOOSE r \in 0..(n - 1) : b[n - r] = 1 /\ \A q \in 0..(r - 1) : b[n - q] = 0)

\* comparison of the denoted natural numbers: the highest place where they differ decides
BCmp(a, b) == LET la == Len(a) lb == Len(b) n == BitMax(la, lb)
                  A(i) == IF i <= la THEN a[i] ELSE 0
                  B(i) == IF i <= lb THEN b[i] ELSE 0
              IN IF \A i \in 1..n : A(i) = B(i) THEN 0
                 ELSE LET r == CHOOSE r \in 0..(n - 1) : A(n - r) # B(n - r) /\ \A q \in 0..(r - 1) : A(n - q) = B(n - q)
                      IN IF A(n - r) < B(n - r) THEN -1 ELSE 1

\* value of a short bit sequence (must fit TLC's integers)
RECURSIVE BVal(_)
BVal(b) == IF b = <<>> THEN 0 ELSE b[1] + 2 * BVal(Tail(b))
RECURSIVE BOfNat(_, _)
BOfNat(v, n) == IF n = 0 THEN <<>> ELSE <<v % 2>> \o BOfNat(v \div 2, n - 1)
===========================================================================
