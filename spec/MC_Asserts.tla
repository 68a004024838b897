---------------------------- MODULE MC_Asserts ----------------------------
EXTENDS Asserts, TLC, Json
VARIABLES prog, form, start
vars == <<avars, prog, form, start>>
Used(p) == Cond
Init == /\ prog \in 1..Len(Prog) /\ form \in 0..12
        /\ env \in [Cond -> BOOLEAN] /\ \E e, n, d \in BOOLEAN : on = Enabled(form, Mode(d, e, n))
        /\ args = Form(form).args
        /\ rest = Prog[prog] /\ log = <<>> /\ status = "running" /\ start = TRUE
Next == Step /\ start' = FALSE /\ UNCHANGED <<prog, form>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == Outcome(Prog[prog], env, TRUE, args, <<>>)
Off == Outcome(Prog[prog], env, FALSE, args, <<>>)
\* the steps and the outcome agree
Agree == status # "running" => [log |-> log, status |-> status] = Outcome(Prog[prog], env, on, args, <<>>)
\* assertions that hold, or that are off, change nothing the program does
Transparent == /\ status = "done" => Marks(log) = Marks(Off.log)
               /\ Prefix(Marks(log), Marks(Off.log))
\* off: nothing of them is evaluated and nothing stops
Absent == ~on => status # "stopped" /\ \A i \in 1..Len(log) : log[i][1] # "arg"
\* nothing happens after the first assertion that fails
Last == status = "stopped" => LET n == Len(log) IN
          /\ (args => log[n] = <<"arg", log[n - 1][2]>>) /\ LET e == log[IF args THEN n - 1 ELSE n] IN e[1] = "eval" /\ ~env[e[2]]
NoArgs == status # "stopped" => \A i \in 1..Len(log) : log[i][1] # "arg"
Ends == <>(status # "running")
Emit == status' = "running" \/ PrintT("@T " \o ToJson([p |-> prog, f |-> form, env |-> [c \in Cond |-> IF env[c] THEN 1 ELSE 0]]))
=============================================================================
