-------------------------------- MODULE Bits --------------------------------
(* A register v of Len(v) bits (least significant first), of a signed type   *)
(* when sg, and the bit and byte utilities applied to it.  Byte is the size  *)
(* of a byte in bits.                                                        *)
EXTENDS BitSeq
CONSTANTS Byte
VARIABLES v, sg
bvars == <<v, sg>>
W == Len(v)
B01(b) == IF b THEN 1 ELSE 0
\* right shift of a two's complement number: the sign bit is repeated
AsrOf(x, s, k) == LET f == IF s THEN x[Len(x)] ELSE 0 IN [i \in 1..Len(x) |-> IF i + k <= Len(x) THEN x[i + k] ELSE f]
SwapOf(x) == [i \in 1..Len(x) |-> LET j == (i - 1) \div Byte
                                      o == (i - 1) % Byte
                                  IN x[(Len(x) \div Byte - 1 - j) * Byte + o + 1]]
FirstOf(x) == BFirst(x) + 1      \* 1-based, 0 when there is none
LastOf(x)  == BLast(x) + 1
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* bytes off..off+n-1 (0-based) of a buffer in reverse order
SwapRange(s, off, n) == [i \in 1..Len(s) |-> IF i > off /\ i <= off + n THEN s[2 * off + n + 1 - i] ELSE s[i]]

Load(x)   == v' = x /\ UNCHANGED sg
SetB(k)   == v' = BSet(v, k, 1) /\ UNCHANGED sg
ClrB(k)   == v' = BSet(v, k, 0) /\ UNCHANGED sg
TogB(k)   == v' = BSet(v, k, 1 - v[k + 1]) /\ UNCHANGED sg
Asr(k)    == v' = AsrOf(v, sg, k) /\ UNCHANGED sg
Rev       == v' = BRev(v) /\ UNCHANGED sg
Swap      == v' = SwapOf(v) /\ UNCHANGED sg
Look      == UNCHANGED bvars
=============================================================================
