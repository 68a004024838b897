------------------------------ MODULE MC_Hash ------------------------------
(* Table-driven hashes refine their serial definitions, over all short byte  *)
(* strings of a small alphabet; published vectors.                           *)
EXTENDS Hash, TLC, Json
CONSTANTS Bytes, MaxLen
VARIABLES act
vars == <<hvars, act>>
---------------------------------------------------------------------------
\* CRC: a 32-bit linear feedback register fed the message bit by bit
Bits(x, n) == [i \in 1..n |-> (x \div 2 ^ (i - 1)) % 2]
Half(q, from) == LET RECURSIVE S(_)
                     S(i) == IF i > 16 THEN 0 ELSE q[from + i] * 2 ^ (i - 1) + S(i + 1)
                 IN S(1)
Poly == Bits(33568, 16) \o Bits(60856, 16)
Serial1(r, bit) == LET fb == (r[1] + bit) % 2 IN
                   [i \in 1..32 |-> ((IF i < 32 THEN r[i + 1] ELSE 0) + fb * Poly[i]) % 2]
RECURSIVE SerialByte(_, _, _)
SerialByte(r, b, n) == IF n = 0 THEN r ELSE SerialByte(Serial1(r, b % 2), b \div 2, n - 1)
RECURSIVE SerialFrom(_, _)
SerialFrom(r, t) == IF t = <<>> THEN r ELSE SerialFrom(SerialByte(r, Head(t), 8), Tail(t))
SerialCrc(t) == LET r == SerialFrom([i \in 1..32 |-> 1], t) IN <<65535 - Half(r, 16), 65535 - Half(r, 0)>>
---------------------------------------------------------------------------
\* FNV-1a with one bit per element: exclusive or, then the product by shifted additions modulo 2^w
NBits(m, w) == [i \in 1..w |-> LET d == (i - 1) \div 12 IN IF d < Len(m) THEN (m[d + 1] \div 2 ^ ((i - 1) % 12)) % 2 ELSE 0]
RECURSIVE AddB(_, _, _, _, _)
AddB(x, y, i, c, r) == IF i > Len(x) THEN r ELSE LET s == x[i] + y[i] + c IN AddB(x, y, i + 1, s \div 2, Append(r, s % 2))
ShlB(x, k) == [i \in 1..Len(x) |-> IF i > k THEN x[i - k] ELSE 0]
RECURSIVE MulB(_, _, _)
MulB(x, ks, r) == IF ks = <<>> THEN r ELSE MulB(x, Tail(ks), AddB(r, ShlB(x, Head(ks)), 1, 0, <<>>))
Zs(w) == [i \in 1..w |-> 0]
XorLow(x, b) == [i \in 1..Len(x) |-> IF i <= 8 THEN (x[i] + ((b \div 2 ^ (i - 1)) % 2)) % 2 ELSE x[i]]
RECURSIVE BitFnv(_, _, _)
BitFnv(x, t, ks) == IF t = <<>> THEN x ELSE BitFnv(MulB(XorLow(x, Head(t)), ks, Zs(Len(x))), Tail(t), ks)
---------------------------------------------------------------------------
Of(t) == LET a == Feed(Acc0, t) IN [crc |-> CrcOut(a.crc), f32 |-> a.f32, f64 |-> a.f64]
T123 == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
Foobar == <<102, 111, 111, 98, 97, 114>>
Hex(q) == LET RECURSIVE H(_)
              H(s) == IF s = <<>> THEN <<>> ELSE NAdd(NScale(H(SubSeq(s, 1, Len(s) - 1)), 16), IF s[Len(s)] = 0 THEN <<>> ELSE <<s[Len(s)]>>)
          IN H(q)
\* the check values of the CRC catalogue and of the FNV specification
ASSUME Of(T123).crc = <<52212, 14630>>                                                           \* cbf43926
ASSUME Of(Foobar).f32 = Hex(<<11, 15, 9, 12, 15, 9, 6, 8>>)
ASSUME Of(Foobar).f64 = Hex(<<8, 5, 9, 4, 4, 1, 7, 1, 15, 7, 3, 9, 6, 7, 14, 8>>)
ASSUME Of(<<97>>).f32 = Hex(<<14, 4, 0, 12, 2, 9, 2, 12>>)
ASSUME Of(<<97>>).f64 = Hex(<<10, 15, 6, 3, 13, 12, 4, 12, 8, 6, 0, 1, 14, 12, 8, 12>>)
ASSUME Combine(<<>>, <<>>) = <<>>
Next == \/ \E b \in Bytes : Len(text) < MaxLen /\ Append1(<<b>>) /\ act' = [op |-> "Append", m |-> <<b>>]
        \/ Clear /\ act' = [op |-> "Clear"]
        \/ Look /\ act' = [op |-> "Hash"]
MCInit == HInit /\ act = [op |-> "Begin"]
MCSpec == MCInit /\ [][Next]_vars
MCView == text
Refines == /\ CrcOut(crc) = SerialCrc(text)
           /\ NBits(f32, 32) = BitFnv(NBits(Fnv32Init, 32), text, <<0, 1, 4, 7, 8, 24>>)
           /\ NBits(f64, 64) = BitFnv(NBits(Fnv64Init, 64), text, <<0, 1, 4, 5, 7, 8, 40>>)
           /\ Acc = Feed(Acc0, text)
Emitted == PrintT("@T " \o ToJson(<<ToString(text), act', ToString(text')>>))
=============================================================================
