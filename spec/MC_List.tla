------------------------------ MODULE MC_List ------------------------------
EXTENDS List, TLC, Json
CONSTANTS N, K        \* longest list, number of types
T == 0..(K - 1)
Lists(n) == UNION {[1..m -> T] : m \in 0..n}
\* transformers: the shift, and one that makes everything the same type
Fns == {[t \in 1..K |-> t % K], [t \in 1..K |-> 0]}
VARIABLE act
Do(a, A) == A /\ act' = a
Next ==
  \/ \E t \in T : \/ Len(lst) < N /\ Do([op |-> "Append", t |-> t], OpAppend(t))
                  \/ Len(lst) < N /\ Do([op |-> "Prepend", t |-> t], OpPrepend(t))
                  \/ Do([op |-> "Remove", t |-> t], OpRemove(t))
                  \/ Do([op |-> "Find", t |-> t], OpFind(t))
                  \/ Do([op |-> "Has", t |-> t], OpHas(t))
  \/ \E s \in Lists(2) : /\ Len(lst) + Len(s) <= N
                         /\ \/ Do([op |-> "Concat", s |-> s], OpConcat(s))
                            \/ Do([op |-> "ConcatTo", s |-> s], OpConcatTo(s))
  \/ Do([op |-> "Unique"], OpUnique)
  \/ \E f \in Fns : Do([op |-> "Transform", f |-> f], OpTransform(f))
  \/ Do([op |-> "Instantiate"], OpInstantiate)
  \/ \E i \in 0..(N - 1) : Do([op |-> "At", i |-> i], OpAt(i))
  \/ Do([op |-> "Size"], OpSize)
  \/ Do([op |-> "Empty"], OpEmpty)
  \/ Do([op |-> "Apply", v |-> 7], OpApply(7))
Init == LInit /\ act = [op |-> "Init"]
Spec == Init /\ [][Next]_<<lvars, act>>
View == lst
Emit == PrintT("@T " \o ToJson(<<lst, act', lst'>>))

\* ---- laws
NoDup(s) == Cardinality(Elems(s)) = Len(s)
Laws == /\ NoDup(Unique(lst)) /\ Elems(Unique(lst)) = Elems(lst) /\ Unique(Unique(lst)) = Unique(lst)
        /\ NoDup(lst) => Unique(lst) = lst
        /\ \A t \in T : /\ t \notin Elems(Remove(lst, t))
                        /\ Elems(Remove(lst, t)) = Elems(lst) \ {t}
                        /\ (Find(lst, t) = NotFound) = (t \notin Elems(lst))
                        /\ t \in Elems(lst) => lst[Find(lst, t) + 1] = t /\ \A j \in 1..Find(lst, t) : lst[j] # t
                        /\ Unique(Remove(lst, t)) = Remove(Unique(lst), t)
                        /\ Len(Remove(lst, t)) = Len(lst) - Cardinality({i \in 1..Len(lst) : lst[i] = t})
        \* the first occurrences come in the same order
        /\ \A t, u \in Elems(lst) : (Find(lst, t) < Find(lst, u)) = (Find(Unique(lst), t) < Find(Unique(lst), u))
        /\ \A s \in Lists(2) : /\ Unique(lst \o s) = Unique(Unique(lst) \o s)
                               /\ \A t \in T : Remove(lst \o s, t) = Remove(lst, t) \o Remove(s, t)
                               /\ \A t \in T : Find(lst \o s, t) = IF t \in Elems(lst) THEN Find(lst, t)
                                                                   ELSE IF t \in Elems(s) THEN Len(lst) + Find(s, t) ELSE NotFound
Queries == {"Find", "Has", "Instantiate", "At", "Size", "Empty", "Apply"}
QueriesKeep == [][act'.op \in Queries => lst' = lst]_<<lvars, act>>
Shape == [][act'.op \notin Queries => ans' = lst']_<<lvars, act>>
=============================================================================
