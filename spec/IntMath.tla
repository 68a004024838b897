------------------------------ MODULE IntMath ------------------------------
(* The integer mathematics of the library over integers of any size: what    *)
(* each function denotes, and when its arguments are in its contract for a   *)
(* type of w bits, signed when sg.                                           *)
EXTENDS Big
LOCAL B(b) == IF b THEN 1 ELSE 0

\* the least multiple of a that is not below x
AlignOf(x, a) == LET r == RemF(x, a) IN IF Sgn(r) = 0 THEN x ELSE Add(x, Sub(a, r))
ApproachOf(x, o, i) == IF Lt(x, o) THEN BMin(Add(x, i), o) ELSE IF Lt(o, x) THEN BMax(Sub(x, i), o) ELSE x
ClampOf(x, lo, hi) == IF Lt(x, lo) THEN lo ELSE IF Lt(hi, x) THEN hi ELSE x
IsPow(x) == Sgn(x) > 0 /\ Cmp(TwoTo(Log2(x)), x) = 0
\* the least power of two that is not below x
CeilPow(x) == IF Le(x, One) THEN One ELSE IF IsPow(x) THEN x ELSE TwoTo(Log2(x) + 1)
Log2Of(x) == IF Sgn(x) = 0 THEN 0 ELSE Log2(x)
Near(x, y, d) == Le(Abs(Sub(x, y)), d)

\* big-valued results: <<value, in contract>>
Val(f, w, sg, a, b, c) ==
    CASE f = "Align"        -> AlignOf(a, b)
      [] f = "AlignPow2"    -> AlignOf(a, b)
      [] f = "Approach"     -> ApproachOf(a, b, c)
      [] f = "Clamp"        -> ClampOf(a, b, c)
      [] f = "NearestPow2"  -> CeilPow(a)
      [] f = "RoundToPow2"  -> CeilPow(a)
      [] f = "Log2"         -> I(Log2Of(a))
      [] f = "Log2Pot"      -> I(Log2Of(a))
      [] f = "Pow"          -> Pow(a, IF Len(b) = 1 THEN 0 ELSE IF Len(b) = 2 THEN b[2] ELSE b[2] + Base * b[3])
      [] f = "IsPow2"       -> I(B(IsPow(a)))
      [] f = "Mod"          -> RemT(a, b)
      [] f = "MultiplyAdd"  -> Add(Mul(a, b), c)
      [] f = "NumberEquals" -> I(B(Near(a, b, c)))
      [] f = "SameNumber"   -> I(B(Cmp(a, b) = 0))
Pre(f, w, sg, a, b, c) ==
    CASE f = "Align"        -> Sgn(b) > 0
      [] f = "AlignPow2"    -> IsPow(b)
      [] f = "Approach"     -> Sgn(c) >= 0
      [] f = "Clamp"        -> Le(b, c)
      [] f = "RoundToPow2"  -> Sgn(a) > 0
      [] f = "Log2"         -> Sgn(a) >= 0
      [] f = "Log2Pot"      -> Sgn(a) = 0 \/ IsPow(a)
      [] f = "Pow"          -> Sgn(b) >= 0 /\ Len(b) <= 3
      [] f = "IsPow2"       -> Sgn(a) # 0
      [] f = "Mod"          -> Sgn(b) # 0 /\ Fits(QuoT(a, b), w, sg)
      [] f = "MultiplyAdd"  -> Fits(Mul(a, b), w, sg)
      [] f = "NumberEquals" -> Sgn(c) >= 0
      [] OTHER              -> TRUE
InContract(f, w, sg, a, b, c) == Pre(f, w, sg, a, b, c) /\ Fits(Val(f, w, sg, a, b, c), w, sg)
Fns == {"Align", "AlignPow2", "Approach", "Clamp", "NearestPow2", "RoundToPow2", "Log2", "Log2Pot", "Pow", "IsPow2", "Mod",
        "MultiplyAdd", "NumberEquals", "SameNumber"}
Arity(f) == CASE f \in {"NearestPow2", "RoundToPow2", "Log2", "Log2Pot", "IsPow2"} -> 1
              [] f \in {"Align", "AlignPow2", "Pow", "Mod", "SameNumber"} -> 2
              [] OTHER -> 3
============================================================================
