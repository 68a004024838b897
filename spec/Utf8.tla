-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8 texts (RFC 3629) as byte sequences, the conversions between the   *)
(* char and char8_t forms of a text, and paths built from them.            *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES txt,    \* the bytes the program holds
          pth     \* the bytes of the path it holds
uvars == <<txt, pth>>

\* ---- encoding of scalar values
Scalar(c) == c \in 0..1114111 /\ c \notin 55296..57343
Encode(c) == IF c < 128 THEN <<c>>
             ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
             ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE EncodeAll(_)
EncodeAll(t) == IF Len(t) = 0 THEN <<>> ELSE Encode(t[1]) \o EncodeAll(Tail(t))

\* ---- which bytes are UTF-8: no overlong form, no surrogate, nothing above the last scalar value
Cont(b) == b \in 128..191
LengthOf(b) == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 0
GoodAt(s, i) == LET n == LengthOf(s[i]) IN
                /\ n > 0 /\ i + n - 1 <= Len(s)
                /\ \A j \in (i + 1)..(i + n - 1) : Cont(s[j])
                /\ s[i] = 224 => s[i + 1] >= 160
                /\ s[i] = 237 => s[i + 1] < 160
                /\ s[i] = 240 => s[i + 1] >= 144
                /\ s[i] = 244 => s[i + 1] < 144
RECURSIVE ValidFrom(_, _)
ValidFrom(s, i) == IF i > Len(s) THEN TRUE ELSE IF GoodAt(s, i) THEN ValidFrom(s, i + LengthOf(s[i])) ELSE FALSE
Valid(s) == ValidFrom(s, 1)
DecodeAt(s, i) == LET n == LengthOf(s[i]) IN
                  CASE n = 1 -> s[i]
                    [] n = 2 -> (s[i] - 192) * 64 + (s[i + 1] - 128)
                    [] n = 3 -> (s[i] - 224) * 4096 + (s[i + 1] - 128) * 64 + (s[i + 2] - 128)
                    [] OTHER -> (s[i] - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + (s[i + 3] - 128)
RECURSIVE DecodeFrom(_, _)
DecodeFrom(s, i) == IF i > Len(s) THEN <<>> ELSE <<DecodeAt(s, i)>> \o DecodeFrom(s, i + LengthOf(s[i]))
Decode(s) == DecodeFrom(s, 1)

\* ---- conversions: the same bytes, whatever the overload; a pointer ends at the first zero
RECURSIVE UpToZero(_)
UpToZero(s) == IF Len(s) = 0 \/ s[1] = 0 THEN <<>> ELSE <<s[1]>> \o UpToZero(Tail(s))
Converted(form) == IF form = "pointer" THEN UpToZero(txt) ELSE txt

\* ---- paths
Slash == 47
RECURSIVE Collapse(_)
Collapse(s) == IF Len(s) <= 1 THEN s
               ELSE IF s[1] = Slash /\ s[2] = Slash THEN Collapse(Tail(s))
               ELSE <<s[1]>> \o Collapse(Tail(s))
\* the generic form of a path: as written, or with each run of separators as one
Generic(s) == {s, Collapse(s)}
Join(p, s) == IF Len(s) > 0 /\ s[1] = Slash THEN s
              ELSE IF Len(p) > 0 /\ p[Len(p)] # Slash THEN p \o <<Slash>> \o s
              ELSE p \o s

UInit == txt = <<>> /\ pth = <<>>
Hold(s) == txt' = s /\ UNCHANGED pth
Convert(form, r) == r = Converted(form) /\ UNCHANGED uvars
MakePath == pth' = txt /\ UNCHANGED txt
JoinPath == pth' = Join(pth, txt) /\ UNCHANGED txt
PathText(r) == r \in Generic(pth) /\ UNCHANGED uvars
=============================================================================
