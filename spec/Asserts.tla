------------------------------ MODULE Asserts ------------------------------
(***************************************************************************)
(* Assertions as statements (Assert.hpp, DebugBreak.hpp, the branch hints  *)
(* of Prerequisites.hpp).  A program is a list of statements; it runs      *)
(* under a valuation of its conditions.  An assertion evaluates its        *)
(* condition once and does nothing else when it holds; when it does not    *)
(* hold, it evaluates the arguments of its message, says what failed and   *)
(* ends the process.  Switched off, it is not there at all.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cond
VARIABLES rest,     \* statements still to run
          env,      \* the value of each condition
          on,       \* whether this form of assertion is compiled in
          args,     \* whether its message has arguments with visible evaluation
          log,      \* what happened: <<"eval", c>>, <<"arg", c>>, <<"mark", n>>
          status    \* "running", "done", "stopped"
avars == <<rest, env, on, args, log, status>>

A(c) == [k |-> "assert", c |-> c]
M(n) == [k |-> "mark", n |-> n]
If(c, t, e) == [k |-> "if", c |-> c, t |-> t, e |-> e]
Return == [k |-> "return"]
RECURSIVE Times(_, _)
Times(n, s) == IF n = 0 THEN <<>> ELSE s \o Times(n - 1, s)

\* the programs of the driver, by number
Prog == <<
  <<A(1), M(1)>>,                                                 \*  1: straight
  <<If(1, <<A(2)>>, <<M(1)>>), M(2)>>,                            \*  2: if (1) A(2); else M(1); M(2);
  <<If(1, <<A(2)>>, <<>>), M(1)>>,                                \*  3: if (1) A(2); M(1);
  <<If(1, <<If(2, <<A(3)>>, <<M(1)>>)>>, <<>>), M(2)>>,           \*  4: if (1) if (2) A(3); else M(1); M(2);
  Times(3, <<A(1), M(1)>>),                                       \*  5: for (3) { A(1); M(1); }
  Times(2, <<A(1)>>) \o <<M(1)>>,                                 \*  6: for (2) A(1); M(1);
  <<If(1, <<M(1)>>, <<A(2)>>), M(2)>>,                            \*  7: if (1) M(1); else A(2); M(2);
  <<A(1), M(1)>>,                                                 \*  8: do A(1); while (false); M(1);
  <<A(1), M(1), M(2)>>,                                           \*  9: in a lambda
  <<A(1), A(2), A(3), M(1)>>,                                     \* 10
  <<If(1, <<A(2)>>, <<A(3)>>), M(1)>>,                            \* 11: if (1) A(2); else A(3); M(1);
  <<If(1, <<A(2), Return>>, <<>>), M(1)>>,                        \* 12: if (1) { A(2); return; } M(1);
  <<If(1, <<A(2), M(1)>>, <<M(2), A(3)>>), M(3)>>,                \* 13: with braces
  <<If(1, <<If(2, <<A(3)>>, <<>>)>>, <<M(1)>>), M(2)>>,           \* 14: if (1) { if (2) A(3); } else M(1); M(2);
  <<A(1), If(2, <<M(1)>>, <<M(2)>>), A(3), M(3)>>                 \* 15: if LIKELY / UNLIKELY (2)
>>

Run(p, v, o, g) == /\ rest' = Prog[p] /\ env' = v /\ on' = o /\ args' = g /\ log' = <<>> /\ status' = "running"
Say(x) == log' = log \o x
\* one statement
Step == /\ status = "running"
        /\ UNCHANGED <<env, on, args>>
        /\ IF rest = <<>> THEN status' = "done" /\ UNCHANGED <<rest, log>>
           ELSE LET s == Head(rest) IN
             CASE s.k = "mark" -> rest' = Tail(rest) /\ Say(<<<<"mark", s.n>>>>) /\ UNCHANGED status
               [] s.k = "return" -> rest' = <<>> /\ UNCHANGED <<log, status>>
               [] s.k = "if" -> /\ rest' = (IF env[s.c] THEN s.t ELSE s.e) \o Tail(rest)
                                /\ Say(<<<<"eval", s.c>>>>) /\ UNCHANGED status
               [] s.k = "assert" -> /\ rest' = Tail(rest)
                                    /\ IF ~on THEN UNCHANGED <<log, status>>
                                       ELSE IF env[s.c] THEN Say(<<<<"eval", s.c>>>>) /\ UNCHANGED status
                                       ELSE /\ Say(<<<<"eval", s.c>>>> \o (IF args THEN <<<<"arg", s.c>>>> ELSE <<>>))
                                            /\ status' = "stopped"
\* the whole outcome of a run, without a step in between
RECURSIVE Outcome(_, _, _, _, _)
Outcome(r, v, o, g, so) ==
  IF r = <<>> THEN [log |-> so, status |-> "done"]
  ELSE LET s == Head(r) IN
    CASE s.k = "mark" -> Outcome(Tail(r), v, o, g, Append(so, <<"mark", s.n>>))
      [] s.k = "return" -> [log |-> so, status |-> "done"]
      [] s.k = "if" -> Outcome((IF v[s.c] THEN s.t ELSE s.e) \o Tail(r), v, o, g, Append(so, <<"eval", s.c>>))
      [] s.k = "assert" -> IF ~o THEN Outcome(Tail(r), v, o, g, so)
                           ELSE IF v[s.c] THEN Outcome(Tail(r), v, o, g, Append(so, <<"eval", s.c>>))
                           ELSE [log |-> so \o <<<<"eval", s.c>>>> \o (IF g THEN <<<<"arg", s.c>>>> ELSE <<>>), status |-> "stopped"]
Marks(lg) == SelectSeq(lg, LAMBDA x : x[1] = "mark")
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

\* ---- the forms of the driver (number |-> is it a macro, does its text say where, do its message's arguments show)
Form(f) == CASE f \in {0, 1, 2, 3} -> [macro |-> TRUE, where |-> TRUE, args |-> FALSE]
             [] f = 4 -> [macro |-> TRUE, where |-> TRUE, args |-> TRUE]
             [] f \in {8, 9, 12} -> [macro |-> FALSE, where |-> TRUE, args |-> FALSE]
             [] OTHER -> [macro |-> FALSE, where |-> FALSE, args |-> FALSE]
\* macros can be switched off, functions cannot
Enabled(f, mode) == ~Form(f).macro \/ (mode.enable /\ ~mode.never)
Mode(ndebug, enable, never) == [enable |-> enable \/ ~ndebug, never |-> never]

\* ---- hints: the values of the driver's hinted branches
RECURSIVE Digits(_)
Digits(v) == IF v = 0 THEN 0 ELSE 1 + Digits(v \div 2)
HintValue(h, v) == CASE h \in {0, 1} -> (v \div 4) % 2
                     [] h \in {2, 3} -> v % 2
                     [] h = 4 -> Digits(v)
                     [] h = 5 -> IF v \in {3, 5} THEN 1 ELSE 0
                     [] h = 6 -> v % 7
                     [] OTHER -> 10 + (v % 3)
=============================================================================
