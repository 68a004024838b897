---------------------------- MODULE MC_FuncRef ----------------------------
EXTENDS FuncRef, TLC, Json
CONSTANTS Amax
VARIABLE act
Do(a, A) == A /\ act' = a
Modes == {"obj", "const"}
Next ==
  \/ \E r \in Refs, c \in Call, m \in Modes : Do([op |-> "Bind", r |-> r, c |-> c, m |-> IF m = "const" THEN 1 ELSE 0], Bind(r, c, m))
  \/ \E w \in Wid \cup Vod, n \in Nar : Do([op |-> "BindRef", r |-> w, n |-> n], BindRef(w, n))
  \/ \E r \in Refs : Do([op |-> "Null", r |-> r], SetNull(r))
  \/ \E r, s \in Refs : \/ Do([op |-> "Copy", r |-> r, s |-> s], Copy(r, s))
                        \/ r < s /\ Do([op |-> "Swap", r |-> r, s |-> s], Swap(r, s))
  \/ \E c \in Call : Do([op |-> "SetAcc", c |-> c, v |-> 0], SetAcc(c, 0))
  \/ Do([op |-> "Flip"], Flip)
  \/ \E r \in Refs : Do([op |-> "Invoke", r |-> r, x |-> 1], Invoke(r, 1))
Init == FInit /\ act = [op |-> "Init"]
Spec == Init /\ [][Next]_<<fvars, act>>
Small == \A c \in Call : acc[c] \in (-1)..Amax
SmallNext == \A c \in Call : acc'[c] \in (-1)..Amax
View == <<tgt, acc, flip>>
Emit == SmallNext /\ PrintT("@T " \o ToJson(<<<<tgt, acc, flip>>, act', <<tgt', acc', flip'>>>>))
\* ---- what references guarantee
\* a call changes the object its reference names, by its own rule, and nothing else
CallsTarget == [][act'.op = "Invoke" =>
                    LET t == Resolve(act'.r) IN
                    /\ \A c \in Call : c # t.n => acc'[c] = acc[c]
                    /\ acc'[t.n] # acc[t.n] /\ last'.ran = t.n /\ (act'.r \notin Vod => last'.ret = acc'[t.n])
                    /\ tgt' = tgt]_<<fvars, act>>
\* rebinding one reference leaves the others, and every callable, alone
Independent == [][act'.op \in {"Bind", "BindRef", "Null", "Copy"} =>
                    acc' = acc /\ \A q \in Refs : q # act'.r => tgt'[q] = tgt[q]]_<<fvars, act>>
\* a copy and its source call the same object, until one of them is bound again
Agree == [][act'.op = "Copy" => ResolveIn(tgt', act'.r) = ResolveIn(tgt', act'.s)]_<<fvars, act>>
\* a wide reference to a narrow one follows it
Follows == [][\A w \in Wid \cup Vod : tgt[w].k = "ref" /\ tgt'[w] = tgt[w] => ResolveIn(tgt', w) = tgt'[tgt[w].n]]_<<fvars, act>>
TypeOK == \A r \in Refs : tgt[r].k = "ref" => r \in Wid \cup Vod /\ tgt[r].n \in Nar
=============================================================================
