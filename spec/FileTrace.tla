----------------------------- MODULE FileTrace -----------------------------
(* Every recorded edit of a real file must be a FileSpec step. PROP names the
   property whose part of the relation is judged. *)
EXTENDS FileSpec, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES l, F, bad
vars == <<l, F, bad>>
Init == l = 0 /\ F = <<>> /\ bad = <<>>
Next ==
    /\ l < Len(Tr)
    /\ l' = l + 1
    /\ LET e == Tr[l + 1] IN
       IF e.op.a = "PANIC" THEN F' = F /\ bad' = Append(bad, [n |-> l + 1, sc |-> e.sc, i |-> e.i, why |-> <<"harness-panic">>])
       ELSE LET r == IF e.op.a = "open" THEN <<>>
                     ELSE IF Prop = "ALL" THEN FlattenSeq([k \in 1..6 |-> Map(Bad("C0" \o ToString(k), F, e), LAMBDA x : "C0" \o ToString(k) \o "." \o x)])
                     ELSE Bad(Prop, F, e) IN
            /\ F' = e.F
            /\ bad' = IF r = <<>> THEN bad ELSE Append(bad, [n |-> l + 1, sc |-> e.sc, i |-> e.i, why |-> r])
Spec == Init /\ [][Next]_vars
Done == l = Len(Tr) => JsonSerialize(IOEnv.VERDICT, [done |-> l, bad |-> bad])
=============================================================================
