----------------------------- MODULE ThreadsMC -----------------------------
(* Every history of Depth operations which change something (or are refused), on
   three threads; a fourth one never changes anything. *)
EXTENDS Threads, Json
CONSTANTS Depth
VARIABLES st, h
vars == <<st, h>>
Base == [a |-> "", t |-> 0, n |-> 0, k |-> 0, custom |-> 1, keep |-> 1, small |-> 0]
Changes(t) ==
    {[Base EXCEPT !.a = "apply", !.t = t, !.custom = x[1], !.keep = x[2], !.small = x[3]] : x \in {<<1, 1, 0>>, <<0, 1, 1>>, <<1, 0, 1>>, <<0, 0, 0>>}}
    \cup {[Base EXCEPT !.a = "reg", !.t = t, !.n = x[1], !.k = x[2]] : x \in {<<0, 0>>, <<1, 1>>, <<2, 2>>, <<0, 3>>}}
    \cup {[Base EXCEPT !.a = "boom", !.t = t], [Base EXCEPT !.a = "read", !.t = t, !.n = 0]}
\* threads enter in order: they are interchangeable
Used == {h[i].t : i \in 1..Len(h)}
Enters(t) == \A u \in 0..(t - 1) : u \in Used
Init == st = Start /\ h = <<>>
Emit(hh) == Len(hh) = Depth => PrintT("SCN " \o ToJson([steps |-> hh]))
Next == /\ Len(h) < Depth
        /\ \E t \in 0..2 : Enters(t) /\ \E op \in Changes(t) :
             /\ st' = After(st, op)
             /\ h' = Append(h, op)
             /\ Emit(h')
Spec == Init /\ [][Next]_vars
\* what a thread works with is what it last applied itself
Last1(t) == LET S == {i \in 1..Len(h) : h[i].a = "apply" /\ h[i].t = t} IN
            IF S = {} THEN Default ELSE LET i == CHOOSE x \in S : \A y \in S : y <= x IN [custom |-> h[i].custom, keep |-> h[i].keep, small |-> h[i].small]
OwnOptions == \A t \in Threads : st.o[t] = Last1(t)
\* a name means what it was first registered for, on every thread
FirstRegistration == \A n \in Names :
    LET S == {i \in 1..Len(h) : h[i].a = "reg" /\ h[i].n = n} IN
    st.r[n] = IF S = {} THEN Free ELSE h[CHOOSE x \in S : \A y \in S : x <= y].k
Unforgotten == \A n \in Names : st.r[n] # Free =>
    \A t \in Threads : st.o[t].custom = 1 => Result(st, [Base EXCEPT !.a = "read", !.t = t, !.n = n]) = <<"A0", "A1", "A2", "A3">>[st.r[n] + 1]
=============================================================================
