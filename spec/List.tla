-------------------------------- MODULE List --------------------------------
(***************************************************************************)
(* Type lists (TypeList.hpp).  A list of types is a finite sequence of     *)
(* type identifiers; a program holds one list and replaces it or asks it   *)
(* something.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES lst,   \* the list the program holds
          ans    \* what the last operation returned
lvars == <<lst, ans>>

NotFound == -1     \* std::numeric_limits<std::size_t>::max()
Elems(s) == {s[i] : i \in 1..Len(s)}
First(s, t) == CHOOSE i \in 1..Len(s) : s[i] = t /\ \A j \in 1..(i - 1) : s[j] # t
Find(s, t) == IF t \in Elems(s) THEN First(s, t) - 1 ELSE NotFound
Remove(s, t) == SelectSeq(s, LAMBDA x : x # t)
RECURSIVE Unique(_)
Unique(s) == IF Len(s) = 0 THEN <<>>
             ELSE LET f == SubSeq(s, 1, Len(s) - 1) IN
                  IF s[Len(s)] \in Elems(f) THEN Unique(f) ELSE Append(Unique(f), s[Len(s)])
\* a transformer is given by its values: fn[t + 1] is what it makes of type t
Map(s, fn) == [i \in 1..Len(s) |-> fn[s[i] + 1]]

Become(s) == lst' = s /\ ans' = s
Tell(x)   == lst' = lst /\ ans' = x

LInit == lst = <<>> /\ ans = <<>>
OpAppend(t)    == Become(Append(lst, t))
OpPrepend(t)   == Become(<<t>> \o lst)
OpConcat(s)    == Become(lst \o s)            \* TypeListConcat<list, s>
OpConcatTo(s)  == Become(s \o lst)            \* TypeListConcat<s, list>
OpRemove(t)    == Become(Remove(lst, t))
OpUnique       == Become(Unique(lst))
OpTransform(f) == Become(Map(lst, f))
OpInstantiate  == Tell(lst)                   \* TypeListInstantiate<list, Class>: the arguments of Class
OpAt(i)        == i < Len(lst) /\ Tell(lst[i + 1])
OpFind(t)      == Tell(Find(lst, t))
OpHas(t)       == Tell(t \in Elems(lst))
OpSize         == Tell(Len(lst))
OpEmpty        == Tell(Len(lst) = 0)
\* TypeListApply calls the functor once per type in order; each call finds the caller's arguments as they
\* were given: the pairs <<type, payload>>
OpApply(v)     == Tell([i \in 1..Len(lst) |-> <<lst[i], v>>])
=============================================================================
