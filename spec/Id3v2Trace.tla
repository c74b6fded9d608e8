---------------------------- MODULE Id3v2Trace ----------------------------
EXTENDS Id3v2, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
If(c, w) == IF c THEN <<w>> ELSE <<>>
SetOf(q) == {q[i] : i \in DOMAIN q}
\* the restrictions byte: tag size, text encoding, text field size, image encoding, image size
ResOf(x) == IF x < 0 THEN <<>> ELSE <<x \div 64, (x \div 32) % 2, (x \div 8) % 4, (x \div 4) % 2, x % 4>>
ResByte(r) == IF r = <<>> THEN 0 - 1 ELSE r[1] * 64 + r[2] * 32 + r[3] * 8 + r[4] * 4 + r[5]
\* lofty's records, with what has no meaning left out: a data length without compression or encryption
RECURSIVE Plain(_)
Plain(f) == [id |-> f.id, k |-> f.k, e |-> f.e, s |-> f.s, n |-> f.n, b |-> f.b,
             fl |-> [tap |-> f.fl.tap, fap |-> f.fl.fap, ro |-> f.fl.ro, g |-> f.fl.g, m |-> f.fl.m, z |-> f.fl.z],
             c |-> [i \in DOMAIN f.c |-> Plain(f.c[i])]]
\* without pictures, in chapters too
RECURSIVE NoArt(_)
NoArt(fs) == LET k == SelectSeq(fs, LAMBDA f : f.id # "APIC") IN [i \in DOMAIN k |-> [k[i] EXCEPT !.c = NoArt(k[i].c)]]
ReadBad(ev) ==
    LET d == Decode(ev.b, IF ev.impl THEN "up" ELSE "keep") IN
    IF ~d.ok THEN <<>>
    ELSE IF ~Distinct(d.fs) THEN <<>>
    ELSE IF ~ev.ok THEN <<"a tag which conforms to the standard cannot be read">>
    ELSE LET want == IF ev.art THEN d.fs ELSE NoArt(d.fs)
             w == {Plain(want[i]) : i \in DOMAIN want} g == {Plain(ev.fs[i]) : i \in DOMAIN ev.fs} IN
         If(ev.ver # d.ver, "version")
         \o If(Len(ev.fs) # Len(want), "number of frames")
         \o If({f.id : f \in w} # {f.id : f \in g}, "frame identifiers")
         \o If({f.id : f \in w} = {f.id : f \in g} /\ w # g, "frame contents")
         \o If(ev.tf.exp # d.exp \/ ev.tf.foot # d.foot \/ ev.tf.u # d.u, "tag flags")
         \o If(ev.tf.crc # d.crc, "checksum flag")
         \o If(ev.tf.res # ResOf(d.res), "restrictions")
\* a plain comparison of what was written; the data length is checked by the decoder
W(f) == Plain([f EXCEPT !.fl.z = FALSE])
WriteBad(ev) ==
    LET fs == ev.fs can == CanWrite(fs, ev.v3, ev.lossy) IN
    IF ~can THEN If(ev.ok, "written although it cannot be represented")
    ELSE IF ~ev.ok THEN <<"cannot be written">>
    ELSE LET want == Expect(fs, ev.v3, ev.lossy) IN
    IF fs = <<>> THEN If(ev.b # <<>>, "nothing to write")
    ELSE IF want = <<>> THEN <<>>
    ELSE LET d == Decode(ev.b, "std") IN
    IF ~d.ok THEN <<"what was written does not conform to the standard">>
    ELSE LET w == [i \in DOMAIN want |-> W(want[i])] g == [i \in DOMAIN d.fs |-> W(d.fs[i])] IN
         If(d.ver # (IF ev.v3 THEN 3 ELSE 4), "version written")
         \o If(d.total # Len(ev.b), "more written than the tag")
         \o If(d.u, "unsynchronisation written")
         \o If(d.exp # ev.tf.exp \/ d.foot # (ev.tf.foot /\ ~ev.v3), "flags written")
         \o If(d.crc # ev.tf.crc, "checksum written")
         \o If(d.res # (IF ev.v3 THEN 0 - 1 ELSE ResByte(ev.tf.res)), "restrictions written")
         \o If(d.pad # (IF d.foot THEN 0 ELSE ev.pad), "padding written")
         \o If([i \in DOMAIN w |-> w[i].id] # [i \in DOMAIN g |-> g[i].id], "frames written")
         \o If([i \in DOMAIN w |-> w[i].id] = [i \in DOMAIN g |-> g[i].id] /\ w # g, "frame contents written")
Reasons(ev) == CASE ev.op.a = "PANIC" -> <<"panic">> [] ev.op.a = "read" -> ReadBad(ev) [] OTHER -> WriteBad(ev)
Init == l = 0 /\ bad = <<>>
Next ==
    /\ l < Len(Tr)
    /\ l' = l + 1
    /\ LET ev == Tr[l + 1] IN
       LET r == Reasons(ev) IN
       bad' = IF r = <<>> THEN bad ELSE Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> r])
Spec == Init /\ [][Next]_vars
Done == l = Len(Tr) => JsonSerialize(IOEnv.VERDICT, [done |-> l, bad |-> bad])
=============================================================================
