------------------------------ MODULE Result ------------------------------
(* A result is a value or an error, with a payload (0 for a void value).     *)
EXTENDS Integers, Sequences
CONSTANTS Obj
VARIABLES res
V(x) == [k |-> 1, x |-> x]
E(x) == [k |-> 0, x |-> x]
IsOk(o) == res[o].k = 1
New(o, k, x)    == res' = [res EXCEPT ![o] = [k |-> k, x |-> x]]
CopyFrom(o, p)  == res' = [res EXCEPT ![o] = res[p]]
\* the source keeps its alternative; y is what is left of its payload
MoveFrom(o, p, y) == o # p /\ res' = [res EXCEPT ![o] = res[p], ![p].x = y]
Mutate(o, x)    == res' = [res EXCEPT ![o].x = x]
\* payload given away through an rvalue accessor
Take(o, ret, y) == ret = res[o].x /\ res' = [res EXCEPT ![o].x = y]
Keep            == UNCHANGED res
\* continuation applied to the value only, exactly once; the error goes through
F(x) == x + 1000
Mapped(r, out, calls, arg) == IF r.k = 1 THEN calls = 1 /\ arg = r.x /\ out = V(F(r.x)) ELSE calls = 0 /\ out = r
MappedVoid(r, out, calls, arg) == IF r.k = 1 THEN calls = 1 /\ arg = r.x /\ out = V(0) ELSE calls = 0 /\ out = r
Or(r, d) == IF r.k = 1 THEN r.x ELSE d
\* Something throws: 0 a copy made while mapping a constant result with a continuation that does not throw,
\* 1, 2 the continuation itself, of a constant or a temporary result, 3 a copy construction, 4 the copy of the value
\* given by GetValueOr, 5 the copy of p assigned to o.  It reaches the caller, and the result is what it was.
Copied(r, canv, cane) == IF r.k = 1 THEN canv ELSE cane
Throws(how, o, p, canv, cane) ==
    CASE how = 0 -> res[o].k = 0 /\ cane
      [] how \in {1, 2} -> res[o].k = 1
      [] how = 3 -> Copied(res[o], canv, cane)
      [] how = 4 -> res[o].k = 1 /\ canv
      [] how = 5 -> Copied(res[p], canv, cane)
Calls(how, o) == IF how \in 0..2 /\ res[o].k = 1 THEN 1 ELSE 0
\* y: what is left of the error a temporary was mapped into
Fault(how, o, p, canv, cane, threw, calls, y) ==
    /\ threw = Throws(how, o, p, canv, cane)
    /\ calls = Calls(how, o)
    /\ CASE how = 2 /\ res[o].k = 0 -> Mutate(o, y)
         [] how = 5 /\ ~threw -> CopyFrom(o, p)
         [] OTHER -> Keep
ResultType == \A o \in Obj : res[o].k \in {0, 1}
===========================================================================
