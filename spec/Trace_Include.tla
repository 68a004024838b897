--------------------------- MODULE Trace_Include ---------------------------
(* Programs of two units.  known: the value of the use of each header, the  *)
(* same in every unit of every program of one compiler and standard.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES l, known
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Seen(s) == {s[i] : i \in 1..Len(s)}
Nothing == [h \in {} |-> 0]
\* the uses of a unit: each header it asked for, once, with one value
UnitOk(asked, uses) == /\ {x[1] : x \in Seen(uses)} = Seen(asked)
                       /\ Len(uses) = Cardinality(Seen(asked))
                       /\ \A x \in Seen(uses) : x[1] \in DOMAIN known => known[x[1]] = x[2]
Learn(uses) == LET new == {x \in Seen(uses) : x[1] \notin DOMAIN known} IN
               [h \in DOMAIN known \cup {x[1] : x \in new} |-> IF h \in DOMAIN known THEN known[h] ELSE (CHOOSE x \in new : x[1] = h)[2]]
TStep(e) == CASE e.op = "Begin" -> known' = Nothing
              [] e.op = "End" -> l = Len(Trace) /\ UNCHANGED known
              [] e.op = "Program" -> /\ e.built = 1 /\ e.ran = 1
                                     /\ UnitOk(e.first, e.uses1) /\ UnitOk(e.second, e.uses2)
                                     /\ e.again = e.uses1                       \* the units do not disturb each other
                                     /\ \A x \in Seen(e.uses1), y \in Seen(e.uses2) : x[1] = y[1] => x[2] = y[2]
                                     /\ known' = Learn(e.uses1 \o e.uses2)
              [] OTHER -> FALSE
TInit == l = 1 /\ known = Nothing
TNext == l <= Len(Trace) /\ l' = l + 1 /\ TStep(Ev)
TSpec == TInit /\ [][TNext]_<<known, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
