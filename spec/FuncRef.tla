------------------------------ MODULE FuncRef ------------------------------
(***************************************************************************)
(* References to callables (FunctionRef.hpp).  Callable objects live       *)
(* outside the references and have a state of their own, the sum of what   *)
(* they were called with.  A reference holds no copy: it names an object.  *)
(* References of the narrow signature name callables; references of the    *)
(* wide signature and of the one that returns nothing name callables or    *)
(* references of the narrow one.                                           *)
(*   0: function object          1: constant function object               *)
(*   2: lambda                   3: function                               *)
(*   4: function pointer variable, which may be made to subtract           *)
(*   5: std::function            6: object whose const call adds 100 times *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Nar, Wid, Vod, Call     \* the references of each signature, the callables (all numbers)
VARIABLES tgt,    \* what each reference names: [k |-> "null" | "obj" | "const" | "ref", n |-> number]
          acc,    \* the state of each callable
          flip,   \* whether the function pointer variable points to the subtracting function
          last    \* the outcome of the last operation
fvars == <<tgt, acc, flip, last>>
Null == [k |-> "null", n |-> 0]
Refs == Nar \cup Wid \cup Vod
SameClass(r, s) == \A C \in {Nar, Wid, Vod} : (r \in C) = (s \in C)

FInit == tgt = [r \in Refs |-> Null] /\ acc = [c \in Call |-> 0] /\ flip = FALSE /\ last = [out |-> "none"]
ResolveIn(t, r) == IF t[r].k = "ref" THEN t[t[r].n] ELSE t[r]
Resolve(r) == ResolveIn(tgt, r)
CanCall(r) == Resolve(r).k \in {"obj", "const"}
Delta(c, m, x) == CASE c = 4 -> IF flip THEN -x ELSE x
                   [] c = 6 -> IF m = "const" THEN 100 * x ELSE x
                   [] OTHER -> x

Bind(r, c, m) == /\ m = "const" => c \in {1, 2, 5, 6}
                 /\ c = 1 => m = "const"
                 /\ tgt' = [tgt EXCEPT ![r] = [k |-> m, n |-> c]]
                 /\ last' = [out |-> "none"] /\ UNCHANGED <<acc, flip>>
BindRef(w, n) == /\ w \in Wid \cup Vod /\ n \in Nar
                 /\ tgt' = [tgt EXCEPT ![w] = [k |-> "ref", n |-> n]]
                 /\ last' = [out |-> "none"] /\ UNCHANGED <<acc, flip>>
SetNull(r) == tgt' = [tgt EXCEPT ![r] = Null] /\ last' = [out |-> "none"] /\ UNCHANGED <<acc, flip>>
\* copies and moves: both name the same object afterwards
Copy(r, s) == /\ SameClass(r, s)
              /\ tgt' = [tgt EXCEPT ![r] = tgt[s]] /\ last' = [out |-> "none"] /\ UNCHANGED <<acc, flip>>
Swap(r, s) == /\ SameClass(r, s)
              /\ tgt' = [tgt EXCEPT ![r] = tgt[s], ![s] = tgt[r]] /\ last' = [out |-> "none"] /\ UNCHANGED <<acc, flip>>
\* the callable is changed behind the references' back
SetAcc(c, v) == acc' = [acc EXCEPT ![c] = v] /\ last' = [out |-> "none"] /\ UNCHANGED <<tgt, flip>>
Flip == flip' = ~flip /\ last' = [out |-> "none"] /\ UNCHANGED <<tgt, acc>>
\* one call of the object named, its result or its exception (after 13, they throw once they have added)
Invoke(r, x) == /\ CanCall(r)
                /\ LET t == Resolve(r) a == acc[t.n] + Delta(t.n, t.k, x) IN
                   /\ acc' = [acc EXCEPT ![t.n] = a]
                   /\ last' = CASE x = 13 -> [out |-> "threw", ran |-> t.n]
                                 [] r \in Vod -> [out |-> "void", ran |-> t.n]
                                 [] OTHER -> [out |-> "value", ret |-> a, ran |-> t.n]
                /\ UNCHANGED <<tgt, flip>>

\* Passing arguments: of a parameter type, given an lvalue or rvalue.  References reach the callable as the same
\* object; an lvalue given to a value parameter is copied once, nothing else is ever copied.
PassCopies(param, given) == IF param = "value" /\ given = "lvalue" THEN 1 ELSE 0
PassSame(param) == param \in {"lref", "cref", "rref"}
PassKeeps(param, given) == given = "lvalue" \/ param \in {"rref", "cref"}      \* the caller's object has its value afterwards
=============================================================================
