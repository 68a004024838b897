-------------------------------- MODULE Hash --------------------------------
(* Published byte-stream hashes as machines fed one byte at a time, and the  *)
(* 64-bit combination of hashes.                                             *)
EXTENDS Big, Bitwise, SequencesExt
LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL Mx(x, y) == IF x > y THEN x ELSE y
---------------------------------------------------------------------------
\* CRC-32 (reflected, polynomial EDB88320) as two 16-bit halves <<high, low>>
CrcInit == <<65535, 65535>>
Shr1(x) == <<x[1] \div 2, x[2] \div 2 + (x[1] % 2) * 32768>>
RECURSIVE Divide(_, _)
Divide(x, n) == IF n = 0 THEN x
                ELSE LET y == Shr1(x) IN Divide(IF x[2] % 2 = 1 THEN <<y[1] ^^ 60856, y[2] ^^ 33568>> ELSE y, n - 1)
Table == [b \in 0..255 |-> Divide(<<0, b>>, 8)]
CrcStep(x, b) == LET t == Table[(x[2] ^^ b) % 256]
                 IN <<(x[1] \div 256) ^^ t[1], (x[2] \div 256 + (x[1] % 256) * 256) ^^ t[2]>>
CrcOut(x) == <<65535 - x[1], 65535 - x[2]>>
---------------------------------------------------------------------------
\* naturals of at most w bits (base 4096 digits)
RECURSIVE TrimD(_)
TrimD(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] = 0 THEN TrimD(SubSeq(m, 1, Len(m) - 1)) ELSE m
Wrap(m, w) == LET q == w \div 12 r == w % 12 IN
              TrimD([i \in 1..(IF Len(m) > q THEN q + 1 ELSE Len(m)) |-> IF i <= q THEN m[i] ELSE m[i] % (2 ^ r)])
XorN(x, y) == TrimD([i \in 1..Mx(Len(x), Len(y)) |-> At(x, i) ^^ At(y, i)])
\* shift right by 47 = 3 digits and 11 bits
Shr47(m) == IF Len(m) <= 3 THEN <<>>
            ELSE LET h == SubSeq(m, 4, Len(m)) IN TrimD([i \in 1..Len(h) |-> h[i] \div 2048 + (At(h, i + 1) % 2048) * 2])
N(x) == Mag(x)
---------------------------------------------------------------------------
\* FNV-1a
Fnv32Init == <<3525, 457, 129>>                        \* 811c9dc5
Fnv64Init == <<805, 546, 1156, 2510, 3058, 12>>        \* cbf29ce484222325
P32 == NAdd(Mag(TwoTo(24)), <<403>>)                   \* 2^24 + 193 (hex)
P64 == NAdd(Mag(TwoTo(40)), <<435>>)                   \* 2^40 + 1b3 (hex)
Fnv32Step(h, b) == Wrap(NMul(XorN(h, <<b>>), P32), 32)
Fnv64Step(h, b) == Wrap(NMul(XorN(h, <<b>>), P64), 64)
---------------------------------------------------------------------------
\* CityHash's combination of a seed and a hash (64 bits)
KMul == <<3433, 898, 2283, 3744, 3551, 9>>             \* 9ddfea08eb382d69
Mix(x) == XorN(x, Shr47(x))
Combine(seed, h) == LET a == Mix(Wrap(NMul(XorN(h, seed), KMul), 64))
                        b == Mix(Wrap(NMul(XorN(seed, a), KMul), 64))
                    IN Wrap(NMul(b, KMul), 64)
\* several values: the first combined with the combination of the others
RECURSIVE CombineAll(_)
CombineAll(hs) == IF Len(hs) = 1 THEN hs[1] ELSE Combine(hs[1], CombineAll(Tail(hs)))
---------------------------------------------------------------------------
\* the machine: a byte string and its hashes, grown together
VARIABLES text, crc, f32, f64,
          seen          \* the combinations computed so far: a function of the hashes combined
hvars == <<text, crc, f32, f64, seen>>
Acc == [crc |-> crc, f32 |-> f32, f64 |-> f64]
Fed(acc, b) == [crc |-> CrcStep(acc.crc, b), f32 |-> Fnv32Step(acc.f32, b), f64 |-> Fnv64Step(acc.f64, b)]
Feed(acc, bs) == FoldLeft(Fed, acc, bs)
Acc0 == [crc |-> CrcInit, f32 |-> Fnv32Init, f64 |-> Fnv64Init]
Put(acc) == crc' = acc.crc /\ f32' = acc.f32 /\ f64' = acc.f64
Append1(bs) == text' = text \o bs /\ Put(Feed(Acc, bs)) /\ UNCHANGED seen
Clear == text' = <<>> /\ Put(Acc0) /\ UNCHANGED seen
Look == UNCHANGED hvars
HInit == text = <<>> /\ crc = CrcInit /\ f32 = Fnv32Init /\ f64 = Fnv64Init /\ seen = {}
=============================================================================
