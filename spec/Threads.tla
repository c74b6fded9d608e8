------------------------------ MODULE Threads ------------------------------
(* Options belong to a thread, resolvers to the process.

   o[t] are the options in effect on thread t, r[n] the type registered under
   name n (Free if none). Types 0, 1 and 2 claim the extension xr<k> and files
   starting with R<k>DATA; type 3 is another one for the first name. *)
EXTENDS Common
Free == 9
Threads == 0..3
Names == 0..2
Default == [custom |-> 1, keep |-> 1, small |-> 0]
Start == [o |-> [t \in Threads |-> Default], r |-> [n \in Names |-> Free]]
NameOf(n) == <<"R0", "R1", "R2">>[n + 1]
\* the name a type gives to the files it recognises
Claims(k) == IF k = 3 THEN 0 ELSE k
Registered(st, k) == \E n \in Names : st.r[n] = k
Any1(st) == \E n \in Names : st.r[n] # Free
Opt(st, op) == st.o[op.t]
After(st, op) ==
    CASE op.a = "apply" -> [st EXCEPT !.o[op.t] = [custom |-> op.custom, keep |-> op.keep, small |-> op.small]]
      [] op.a = "reg" -> IF st.r[op.n] = Free THEN [st EXCEPT !.r[op.n] = op.k] ELSE st
      [] OTHER -> st
\* what the operation returns; a panic is the documented answer to misuse
Result(st, op) ==
    LET custom == Opt(st, op).custom = 1 IN
    CASE op.a = "apply" -> "ok"
      [] op.a = "reg" -> IF st.r[op.n] = Free THEN "ok" ELSE "panic"
      [] op.a = "ext" -> IF op.n = 9 THEN "Mpeg"
                         ELSE IF custom /\ Registered(st, op.n) THEN NameOf(CHOOSE n \in Names : st.r[n] = op.n) ELSE "-"
      [] op.a = "buf" -> IF op.n = 9 THEN "Flac"
                         ELSE IF op.n = 8 THEN (IF custom /\ Any1(st) THEN "Flac" ELSE "-")
                         ELSE IF custom /\ Registered(st, op.n) THEN NameOf(Claims(op.n)) ELSE "-"
      [] op.a = "read" -> IF op.n = 9 THEN "value"
                          ELSE IF ~custom THEN "error"
                          ELSE IF st.r[op.n] = Free THEN "panic" ELSE <<"A0", "A1", "A2", "A3">>[st.r[op.n] + 1]
      [] op.a = "big" -> IF Opt(st, op).small = 1 THEN "error" ELSE "value"
      [] op.a = "keep" -> IF Opt(st, op).keep = 1 THEN "kept" ELSE "lost"
      [] op.a = "boom" -> IF custom /\ Any1(st) THEN "panic" ELSE "-"
\* operations at the same time take effect in some order
RECURSIVE Orders(_, _, _)
Orders(states, ops, left) ==
    IF left = {} THEN states
    ELSE UNION {Orders({After(s[1], ops[i][1]) : s \in {x \in {<<y>> : y \in states} : Result(x[1], ops[i][1]) = ops[i][2]}}, ops, left \ {i}) : i \in left}
StepAll(states, op, res) ==
    IF op.a = "race" THEN Orders(states, [i \in 1..Len(op.ops) |-> <<op.ops[i], res[i]>>], 1..Len(op.ops))
    ELSE {After(s, op) : s \in {x \in states : Result(x, op) = res[1]}}
\* the first step no state explains (0 if all are), given what was observed
RECURSIVE FirstBad(_, _, _, _)
FirstBad(states, steps, res, i) ==
    IF i > Len(res) THEN 0
    ELSE LET s == StepAll(states, steps[i], res[i]) IN IF s = {} THEN i ELSE FirstBad(s, steps, res, i + 1)
ThreadsBad(ev) ==
    LET k == FirstBad({Start}, ev.steps, ev.res, 1) IN
    (IF k > 0 THEN <<"result-" \o ev.steps[k].a>> ELSE <<>>)
    \o (IF ev.end # "" THEN <<"process-end">> ELSE IF Len(ev.res) # Len(ev.steps) THEN <<"steps-missing">> ELSE <<>>)
=============================================================================
