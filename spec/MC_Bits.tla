------------------------------ MODULE MC_Bits ------------------------------
(* Every register of MW bits, every operation; every transition is emitted.  *)
EXTENDS Bits, TLC, Json
CONSTANTS MW, Signed, Emit
VARIABLES act
\* the number a register denotes
UVal(x) == BVal(x)
SVal(x) == IF sg /\ x[Len(x)] = 1 THEN BVal(x) - 2 ^ Len(x) ELSE BVal(x)
Init == v = BZeros(MW) /\ sg = Signed /\ act = [op |-> "Begin"]
Next == \/ \E k \in 0..(MW - 1) : \/ SetB(k) /\ act' = [op |-> "Set", k |-> k]
                                  \/ ClrB(k) /\ act' = [op |-> "Clear", k |-> k]
                                  \/ TogB(k) /\ act' = [op |-> "Toggle", k |-> k]
                                  \/ Asr(k)  /\ act' = [op |-> "Asr", k |-> k]
        \/ Rev /\ act' = [op |-> "Reverse"]
        \/ Swap /\ act' = [op |-> "Swap"]
        \/ Look /\ act' = [op |-> "Look"]
Spec == Init /\ [][Next]_<<bvars, act>>
View == bvars
Laws ==
    /\ BRev(BRev(v)) = v /\ SwapOf(SwapOf(v)) = v
    /\ BCount(BRev(v)) = BCount(v) /\ BCount(SwapOf(v)) = BCount(v)
    \* reversing the bits = reversing the bytes and the bits of each byte
    /\ SwapOf(BRev(v)) = BRev(SwapOf(v))
    /\ (FirstOf(v) = 0) = (BCount(v) = 0) /\ (LastOf(v) = 0) = (BCount(v) = 0)
    /\ BCount(v) > 0 => /\ FirstOf(v) = MW + 1 - LastOf(BRev(v))
                        /\ 2 ^ (LastOf(v) - 1) <= UVal(v) /\ UVal(v) < 2 ^ LastOf(v)
                        /\ UVal(v) % (2 ^ (FirstOf(v) - 1)) = 0 /\ UVal(v) % (2 ^ FirstOf(v)) # 0
    \* an arithmetic shift divides and rounds towards minus infinity
    /\ \A k \in 0..(MW - 1) : SVal(AsrOf(v, sg, k)) = SVal(v) \div (2 ^ k)
    /\ \A k \in 0..(MW - 1) : /\ UVal(BSet(v, k, 1)) = UVal(v) + (1 - v[k + 1]) * 2 ^ k
                              /\ UVal(BSet(v, k, 0)) = UVal(v) - v[k + 1] * 2 ^ k
    /\ \A off \in 0..MW : \A n \in 0..(MW - off) :
         /\ SwapRange(SwapRange(v, off, n), off, n) = v
         /\ BSlice(SwapRange(v, off, n), off, n) = RevSeq(BSlice(v, off, n))
St == ToString(v)
Emitted == Emit => PrintT("@T " \o ToJson(<<St, act', ToString(v')>>))
=============================================================================
