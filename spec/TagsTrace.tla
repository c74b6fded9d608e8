------------------------------ MODULE TagsTrace ------------------------------
(* Recorded readings and writings of the smaller tag formats, judged by the decoders of Tags. *)
EXTENDS Tags, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
If(c, why) == IF c THEN <<why>> ELSE <<>>
ReadBad(ev) ==
    LET d == Dec(ev.type, IF ev.type = "Id3v1" THEN V1Clean(ev.b) ELSE ev.b) IN
    IF ~d.ok THEN <<>>
    \* a year which is not written is refused by the strict mode, by the letter of the official test suite
    ELSE IF ev.type = "Id3v1" /\ ev.mode = "strict" /\ Zeros(Sub(ev.b, 94, 97)) THEN <<>>
    ELSE IF ~ev.ok THEN <<"a conforming tag cannot be read">>
    ELSE LET want == See(ev.type, d.fs, ev.art, ev.impl) IN
    IF SelectSeq(want, LAMBDA f : f.k # "vendor") = <<>> THEN If(ev.found /\ SelectSeq(ev.fs, LAMBDA f : f.k # "vendor") # <<>>, "something from nothing")
    ELSE IF ~ev.found THEN <<"the tag is not found">>
    ELSE If(Len(ev.fs) # Len(want), "number of items")
         \o If(Len(ev.fs) = Len(want) /\ Sorted(ev.type, ev.fs) # Sorted(ev.type, want), "items")
         \o If(ev.type = "Ape" /\ ev.ro # d.ro, "read only")
\* values without a form of their own: UTF-16 is written as UTF-8, a flag outside of the known flags is a number
W(ty, f) ==
    IF ty # "Mp4Ilst" THEN f
    ELSE CASE f.k = "u16" -> [f EXCEPT !.k = "u8"]
           [] f.k = "bool" /\ f.id \notin BOOLS -> R("si", f.id, <<>>, <<f.n[1], 0, 0, 0, f.n[2]>>, <<>>)
           [] f.k \in {"si", "ui"} /\ f.id \in BOOLS -> R("bool", f.id, <<>>, <<f.n[1], IF Zeros(From(f.n, 2)) THEN 0 ELSE 1>>, <<>>)
           [] OTHER -> f
WriteBad(ev) ==
    IF ev.empty \/ ~ev.ok THEN <<>>
    ELSE LET d0 == Dec(ev.type, ev.b) n == Len(ev.b)
             \* the tag says of itself that it has no footer (KF-ape-footer-flag)
             nf == ev.type = "Ape" /\ ~d0.ok /\ n >= 64 /\ ev.b[24] = 224 /\ ev.b[n - 8] = 192
             d == IF nf THEN Dec("Ape", [ev.b EXCEPT ![24] = 160, ![n - 8] = 128]) ELSE d0 IN
    IF ~d.ok THEN <<"what was written does not conform to the format">>
    ELSE LET want == [i \in DOMAIN ev.fs |-> W(ev.type, ev.fs[i])] got == [i \in DOMAIN d.fs |-> W(ev.type, d.fs[i])] IN
         If(nf, "ape-footer-flag")
         \o If(Len(got) # Len(want), "number of items written")
         \o If(Len(got) = Len(want) /\ Sorted(ev.type, got) # Sorted(ev.type, want), "items written")
         \o If(ev.type = "Ape" /\ ev.ro # d.ro, "read only written")
Reasons(ev) == CASE ev.op.a = "PANIC" -> <<"panic">> [] ev.op.a = "read" -> ReadBad(ev) [] OTHER -> WriteBad(ev)
Init == l = 0 /\ bad = <<>>
Next ==
    /\ l < Len(Tr)
    /\ l' = l + 1
    /\ LET ev == Tr[l + 1] IN
       LET r == Reasons(ev) IN
       bad' = IF r = <<>> THEN bad ELSE Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> r])
Spec == Init /\ [][Next]_vars
Done == l = Len(Tr) => JsonSerialize(IOEnv.VERDICT, [done |-> l, bad |-> bad])
=============================================================================
