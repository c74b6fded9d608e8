---------------------------- MODULE TagOpsTrace ----------------------------
(* Every recorded call on the real tag must be the TagOps step on the state
   reached so far, return what TagOps returns, and every lookup afterwards
   must answer what TagOps says. *)
EXTENDS TagOps
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
vars == <<l, st, bad>>

Reasons(s, ev) ==
    LET exp == IF ev.op.a = "init" THEN R(ev.init, <<>>) ELSE Apply(s, ev.op) IN
    (IF ev.panic # "" THEN <<"panic">> ELSE <<>>)
    \o (IF ev.ret # exp.ret THEN <<"returned-value">> ELSE <<>>)
    \o (IF ev.post.items # exp.st.items THEN <<"items">> ELSE <<>>)
    \o (IF ev.post.pics # exp.st.pics THEN <<"pictures">> ELSE <<>>)
    \o (IF ev.post.type # exp.st.type THEN <<"type">> ELSE <<>>)
    \o (IF ~ObsOk(ev.post, ev.obs) THEN <<"lookups">> ELSE <<>>)

Init == l = 0 /\ st = <<>> /\ bad = <<>>
Next ==
    /\ l < Len(Tr)
    /\ l' = l + 1
    /\ LET ev == Tr[l + 1] IN
       IF ev.op.a = "PANIC"
       THEN st' = st /\ bad' = Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> <<"panic">>])
       ELSE LET r == Reasons(st, ev) IN
            /\ st' = ev.post
            /\ bad' = IF r = <<>> THEN bad ELSE Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> r])
Spec == Init /\ [][Next]_vars
Done == l = Len(Tr) => JsonSerialize(IOEnv.VERDICT, [done |-> l, bad |-> bad])
=============================================================================
