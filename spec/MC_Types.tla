------------------------------ MODULE MC_Types ------------------------------
(* Every type a few steps away from the basic ones, and the invariants of    *)
(* well-formed types.  With Pair, two types are grown side by side: distinct *)
(* types have distinct names.                                                *)
EXTENDS Types, Json
CONSTANTS Steps, Pair
VARIABLES t, u, n, act
vars == <<t, u, n, act>>
Init == t \in Bases /\ u \in (IF Pair THEN Bases ELSE {IntT}) /\ n = 0 /\ act = [op |-> "Begin"]
Next == /\ n < Steps /\ n' = n + 1
        /\ \E s \in Steps1(t) : t' = s.to /\ act' = s.act
        /\ IF Pair THEN \E s \in Steps1(u) : u' = s.to ELSE u' = u
Spec == Init /\ [][Next]_vars
RECURSIVE Well(_)
Well(x) == CASE x.k = "n" -> TRUE
             [] x.k = "i" -> TRUE
             [] x.k = "t" -> \A i \in DOMAIN x.as : Well(x.as[i])
             [] x.k = "p" -> Well(x.of) /\ ~IsRef(x.of) /\ ~Abominable(x.of)
             [] x.k \in {"l", "r"} -> Well(x.of) /\ ~IsRef(x.of) /\ ~IsVoid(x.of) /\ ~Abominable(x.of)
             [] x.k = "a" -> Well(x.of) /\ Complete(x.of) /\ ~IsRef(x.of)
             [] x.k = "f" -> /\ Well(x.of) /\ x.of.k \notin {"a", "f"}
                             /\ \A i \in DOMAIN x.ps : Well(x.ps[i]) /\ ~IsVoid(x.ps[i]) /\ x.ps[i].k \notin {"a", "f"} /\ (HasCv(x.ps[i]) => ~x.ps[i].c /\ ~x.ps[i].v)
             [] x.k = "m" -> Well(x.of) /\ ~IsRef(x.of) /\ ~IsVoid(x.of)
WellFormed == Well(t) /\ Well(RemoveCvRef(t))
Laws == /\ AddC(AddC(t)) = AddC(t) /\ AddC(AddV(t)) = AddV(AddC(t))
        /\ RemoveCvRef(RemoveCvRef(t)) = RemoveCvRef(t)
        /\ ~IsRef(RemoveCvRef(t)) /\ Hides(RemoveCvRef(t), <<t>>)
        /\ CanRef(t) => RRef(LRef(t)) = LRef(t) /\ LRef(RRef(t)) = LRef(t) /\ (~IsRef(t) => LRef(t) # RRef(t))
        /\ CanPtr(t) /\ CanRef(t) => Ptr(LRef(t)) = Ptr(t)
        /\ HasTraits(t) => FunctionOf(t).k = "f"
Injective == Name(t) = Name(u) => t = u
Emitted == PrintT("@T " \o ToJson(<<[t |-> t], act', [t |-> t', tr |-> HasTraits(t'), wh |-> ~IsRef(t') /\ CanPtr(t')]>>))
=============================================================================
