----------------------------- MODULE ViewsTrace -----------------------------
EXTENDS Views, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
If(c, r) == IF c THEN <<>> ELSE <<r>>
Txt(o) == (IF o.tags THEN "" ELSE "-tags") \o (IF o.props THEN "" ELSE "-props") \o (IF o.art THEN "" ELSE "-art") \o (IF o.impl THEN "" ELSE "-impl") \o ":" \o o.mode
Tagged(o, r) == Map(r, LAMBDA x : x \o Txt(o))
Same5(a, b) == a.tags = b.tags /\ a.props = b.props /\ a.art = b.art /\ a.impl = b.impl
(* a second comment block is against the FLAC standard, a year of other than four digits against the ID3v1 one *)
NoYear(t) == t.type = "Id3v1" /\ ~AnyI(t.items, LAMBDA i : i.id = "year")
WellFormed(ev) == ~ev.bad /\ Count(ev.parts, LAMBDA p : Prefix(p, "VC#")) <= 1 /\ ~AnyI(ev.base.tags, NoYear)
Reasons(ev) ==
    IF ev.op.a = "PANIC" THEN <<"panic">>
    ELSE
    LET n == Len(ev.views)
        one(i) == LET x == ev.views[i] o == [x.o EXCEPT !.mode = @] IN
                  (IF x.v.res = "panic" \/ x.v.gres = "panic" THEN Tagged(o, <<"panic">>) ELSE <<>>)
                  \o If(x.v.res = x.v.gres, "concrete-generic-disagree")
                  \* (in a damaged file the parts which are not parsed may be skipped by a size which is wrong)
                  \o (IF ev.bad /\ (o.mode # "best" \/ x.v.res # "ok" \/ x.v.gres # "ok") THEN <<>> ELSE Tagged(o, ViewBad(ev.base, [o EXCEPT !.mode = @] @@ [wf |-> WellFormed(ev)], x.v)))
        two(i, j) == LET a == ev.views[i] b == ev.views[j] IN
                  IF Same5(a.o, b.o) /\ Level[a.o.mode] < Level[b.o.mode] THEN Tagged(a.o, ModesBad(a.v, b.v)) ELSE <<>> IN
    FlattenSeq([i \in 1..n |-> one(i)]) \o FlattenSeq([k \in 1..(n * n) |-> two(1 + ((k - 1) \div n), 1 + ((k - 1) % n))])
Init == l = 0 /\ bad = <<>>
Next ==
    /\ l < Len(Tr)
    /\ l' = l + 1
    /\ LET ev == Tr[l + 1] IN
       LET r == Reasons(ev) IN
       bad' = IF r = <<>> THEN bad ELSE Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> r])
Spec == Init /\ [][Next]_vars
Done == l = Len(Tr) => JsonSerialize(IOEnv.VERDICT, [done |-> l, bad |-> bad])
=============================================================================
