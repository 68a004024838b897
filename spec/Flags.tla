------------------------------- MODULE Flags -------------------------------
(* Flag sets over the enumerators 0..n-1.  `known` is a hash set of them.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Obj
VARIABLES fs, n, known
fvars == <<fs, n, known>>
U == 0..(n - 1)
K == UNCHANGED <<n, known>>
Put(o, s)   == s \subseteq U /\ fs' = [fs EXCEPT ![o] = s] /\ K
Sym(x, y)   == (x \ y) \cup (y \ x)
Apply(f, x, y) == CASE f = "or" -> x \cup y [] f = "and" -> x \cap y [] f = "xor" -> Sym(x, y) [] f = "diff" -> x \ y
Bin(o, f, x, y) == Put(o, Apply(f, x, y))
Compl(o, x) == Put(o, U \ x)
Test(x, y)  == y \subseteq x
Look        == UNCHANGED fvars
Intern(x, inserted) == inserted = (x \notin known) /\ known' = known \cup {x} /\ UNCHANGED <<fs, n>>
\* ascending enumeration, the order iteration follows
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Asc(s \ {m})
FlagsOK == \A o \in Obj : fs[o] \subseteq U
============================================================================
