------------------------------ MODULE EnumArr ------------------------------
(* Arrays of n elements, one per enumerator, and key-value iterators         *)
(* it[i] = [a |-> array, p |-> position in 0..n].                            *)
EXTENDS Integers, Sequences
CONSTANTS Obj, Its
VARIABLES arr, it, n
evars == <<arr, it, n>>
Keys == 0..(n - 1)
Const(v)      == [k \in Keys |-> v]
Write(o, k, v) == k \in Keys /\ arr' = [arr EXCEPT ![o][k] = v] /\ UNCHANGED <<it, n>>
Fill(o, v)    == arr' = [arr EXCEPT ![o] = Const(v)] /\ UNCHANGED <<it, n>>
Set(o, f)     == arr' = [arr EXCEPT ![o] = f] /\ UNCHANGED <<it, n>>
Swap(o, p)    == arr' = [arr EXCEPT ![o] = arr[p], ![p] = arr[o]] /\ UNCHANGED <<it, n>>
\* iterators name positions of an array, not elements: they are not affected by writes
Point(i, o, p) == p \in 0..n /\ it' = [it EXCEPT ![i] = [a |-> o, p |-> p]] /\ UNCHANGED <<arr, n>>
Move(i, d)    == Point(i, it[i].a, it[i].p + d)
\* it[j] becomes a copy of it[i] offset by d
Offset(j, i, d) == Point(j, it[i].a, it[i].p + d)
Deref(i, d)   == arr[it[i].a][it[i].p + d]
Can(i, d)     == it[i].p + d \in Keys
WriteAt(i, d, v) == Can(i, d) /\ Write(it[i].a, it[i].p + d, v)
Look          == UNCHANGED evars
\* what a full key-value traversal sees
Pairs(o)      == [k \in 1..n |-> <<k - 1, arr[o][k - 1]>>]
Values(o)     == [k \in 1..n |-> arr[o][k - 1]]
Rev(s)        == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
RECURSIVE LexLess(_, _)
LexLess(x, y) == IF x = <<>> THEN y # <<>> ELSE IF y = <<>> THEN FALSE
                 ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE LexLess(Tail(x), Tail(y))
EnumOK == /\ \A o \in Obj : DOMAIN arr[o] = Keys
          /\ \A i \in Its : it[i].p \in 0..n
============================================================================
