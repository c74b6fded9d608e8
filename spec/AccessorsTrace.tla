--------------------------- MODULE AccessorsTrace ---------------------------
EXTENDS Accessors
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Reasons(ev) ==
    IF ev.panic # "" THEN <<"panic">>
    ELSE IF ev.op.a = "init" THEN <<>>
    ELSE IF ev.op.a = "set" THEN IF SetOk(ev.pre, ev.op.f, ev.op.v, ev.post) THEN <<>> ELSE <<"set">>
    ELSE IF UnsetOk(ev.pre, ev.op.f, ev.post) THEN <<>> ELSE <<"remove">>
Init == l = 0 /\ bad = <<>>
Next ==
    /\ l < Len(Tr)
    /\ l' = l + 1
    /\ LET ev == Tr[l + 1] IN
       LET r == IF ev.op.a = "PANIC" THEN <<"panic">> ELSE Reasons(ev) IN
       bad' = IF r = <<>> THEN bad ELSE Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> r])
Spec == Init /\ [][Next]_vars
Done == l = Len(Tr) => JsonSerialize(IOEnv.VERDICT, [done |-> l, bad |-> bad])
=============================================================================
