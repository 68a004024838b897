------------------------------ MODULE MC_Utf8 ------------------------------
EXTENDS Utf8, TLC, Json
CONSTANTS Cps, N, Pmax      \* scalar values, longest text, longest path
VARIABLE act, cps
vars == <<uvars, act, cps>>
Do(a, A) == A /\ act' = a
Next == \/ /\ Len(cps) < N
           /\ \E c \in Cps : cps' = Append(cps, c) /\ Do([op |-> "Hold", s |-> EncodeAll(Append(cps, c))], Hold(EncodeAll(Append(cps, c))))
        \/ Len(txt) <= Pmax /\ cps' = cps /\ Do([op |-> "MakePath"], MakePath)
        \/ cps' = <<>> /\ Do([op |-> "Hold", s |-> <<>>], Hold(<<>>))
        \/ Len(pth) + Len(txt) < Pmax /\ cps' = cps /\ Do([op |-> "JoinPath"], JoinPath)
Init == UInit /\ act = [op |-> "Init"] /\ cps = <<>>
Spec == Init /\ [][Next]_vars
View == <<txt, pth, cps>>
Emit == PrintT("@T " \o ToJson(<<<<txt, pth>>, act', <<txt', pth'>>>>))
Laws == /\ txt = EncodeAll(cps)
        /\ Valid(txt) /\ Decode(txt) = cps
        /\ \A i \in 1..Len(txt) : txt[i] \in 0..255
        /\ Len(Converted("pointer")) <= Len(txt)
        /\ (\A i \in 1..Len(txt) : txt[i] # 0) => Converted("pointer") = txt
        /\ Valid(Converted("pointer"))
        \* no proper prefix that cuts a character is valid
        /\ \A n \in 0..Len(txt) : Valid(SubSeq(txt, 1, n)) = (\E k \in 0..Len(cps) : SubSeq(txt, 1, n) = EncodeAll(SubSeq(cps, 1, k)))
        /\ Valid(Collapse(txt)) /\ Collapse(Collapse(txt)) = Collapse(txt)
        /\ \A i \in 1..(Len(Collapse(txt)) - 1) : ~(Collapse(txt)[i] = Slash /\ Collapse(txt)[i + 1] = Slash)
=============================================================================
