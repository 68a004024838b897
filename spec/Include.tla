------------------------------ MODULE Include ------------------------------
(***************************************************************************)
(* A header-only library as its users meet it: programs of several         *)
(* translation units, each of which includes headers in an order of its    *)
(* own.  Including a header brings in the headers it needs, once.  What a  *)
(* unit can use depends on the set of headers it asked for, and neither on *)
(* their order, nor on repetitions, nor on the other units; every use of   *)
(* a header gives the same answer everywhere; units go together into one   *)
(* program.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Header, Unit, Needs        \* Needs[h]: the headers h includes itself, in order
VARIABLES asked,      \* per unit, the sequence of headers included by the user
          text        \* per unit, the headers whose text was seen, in order
ivars == <<asked, text>>
Seen(s) == {s[i] : i \in 1..Len(s)}
\* the text a header contributes: the guard first, then what it needs, then itself
RECURSIVE Enter(_, _, _)
\* started: guards already set; out: texts completed
EnterAll(hs, started, out) ==
  LET F[i \in 0..Len(hs)] == IF i = 0 THEN [st |-> started, out |-> out] ELSE Enter(hs[i], F[i - 1].st, F[i - 1].out) IN F[Len(hs)]
Enter(h, started, out) ==
  IF h \in started THEN [st |-> started, out |-> out]
  ELSE LET r == EnterAll(Needs[h], started \cup {h}, out) IN [st |-> r.st, out |-> Append(r.out, h)]
Include(u, h) == /\ asked' = [asked EXCEPT ![u] = Append(@, h)]
                 /\ text' = [text EXCEPT ![u] = Enter(h, Seen(@), @).out]
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {Seen(Needs[h]) : h \in S} IN IF T = S THEN S ELSE Closure(T)
Init == asked = [u \in Unit |-> <<>>] /\ text = [u \in Unit |-> <<>>]
\* ---- guarantees
OnlyTheSet == \A u \in Unit : Seen(text[u]) = Closure(Seen(asked[u]))
Once == \A u \in Unit : \A i, j \in 1..Len(text[u]) : i # j => text[u][i] # text[u][j]
\* a header's own needs come before it (there is no cycle)
NeedsFirst == \A u \in Unit : \A i \in 1..Len(text[u]) : \A n \in Seen(Needs[text[u][i]]) : \E j \in 1..(i - 1) : text[u][j] = n
=============================================================================
