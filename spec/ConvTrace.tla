------------------------------ MODULE ConvTrace ------------------------------
(* Recorded conversions of real tags, judged against the contents of Conv. *)
EXTENDS Conv
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
If(c, r) == IF c THEN <<>> ELSE <<r>>
LT(ty, c) == Logical(ty, c.items)
\* the vendor of Vorbis comments is the generic encoder item
Vendor(g) == LET m == Filter(g.items, LAMBDA i : i.k = "EncoderSoftware") IN IF m = <<>> THEN <<>> ELSE <<m[1].v>>
VendorOk(ty, c, g, old) ==
    ty # "VorbisComments" \/
    LET m == Filter(g.items, LAMBDA i : i.k = "EncoderSoftware") IN
    IF m # <<>> /\ m[1].t = "T" THEN c.hd = <<m[1].v>> ELSE c.hd = old
\* the mapping table and its inverse; lookups ignore letter case where the format does
CaseIns == {"Ape", "VorbisComments", "RiffInfo"}
MapReasons(ev) ==
    LET ty == ev.op.type IN
    IF ev.op.k \notin DOMAIN KeyMap[ty] THEN If(ev.ret = <<>>, "map-unknown")
    ELSE IF ev.ret = <<>> \/ ev.ret[1].f # KeyMap[ty][ev.op.k] THEN <<"map">>
    ELSE LET same(x) == x \in DOMAIN KeyMap[ty] /\ KeyMap[ty][x] = ev.ret[1].f IN
         If(same(ev.ret[1].exact), "map-back")
         \o If(\A x \in {ev.ret[1].lower, ev.ret[1].upper} : same(x) \/ (ty \notin CaseIns /\ x = "-"), "map-back-case")
FromReasons(ev) ==
    LET ty == ev.op.type names == {k \in DOMAIN KeyMap[ty] : Lower(KeyMap[ty][k]) = Lower(ev.op.s)} IN
    IF names = {} THEN If(ev.ret = <<>> \/ ev.ret[1] \in DOMAIN KeyMap[ty], "from-unknown")
    ELSE IF ty \in CaseIns \/ \E k \in names : KeyMap[ty][k] = ev.op.s THEN If(ev.ret # <<>> /\ ev.ret[1] \in names, "from")
    ELSE If(ev.ret = <<>> \/ ev.ret[1] \in names, "from")
ToReasons(ev) ==
    LET ty == ev.type want == ExpTag(ty, ev.gen) got == LT(ty, ev.conc) IN
    If(SameBy(ty, got, want), "to-format")
    \o If(SameBy(ty, ExpTag(ty, ev.back), want), "back-to-generic")
    \o If(Same(ExpTag(ty, ev.back), got), "format-to-generic")
    \o If(VendorOk(ty, ev.conc, ev.gen, <<"">>), "vendor")
FileReasons(ev) ==      \* a trip through a real file
    LET ty == ev.type want == ExpTag(ty, ev.gen) IN
    IF ev.res # "ok" THEN <<"save">>
    ELSE IF want = <<>> THEN <<>>
    ELSE If(ev.found, "file-found") \o If(~ev.found \/ SameBy(ty, ExpTag(ty, ev.back), want), "file-trip")
LR(ty, rem) == IF rem = <<>> THEN <<>> ELSE LT(ty, rem[1])
Companion(ty) == ty \in {"Id3v2", "Mp4Ilst"}
SplitReasons(ev) ==
    LET ty == ev.type all == LT(ty, ev.conc) rem == LR(ty, ev.rem)
        gen == ExpTag(ty, ev.gen)
        kept == IF Companion(ty) THEN rem ELSE <<>>
        unk == Filter(all, LAMBDA e : ~AlwaysSplit(ty, e.id))
        all1 == IF ty = "RiffInfo" THEN Filter(all, LAMBDA e : HasKey(ty, e.id)) ELSE all
        vendor(c) == ty # "VorbisComments" \/ c.hd = ev.conc.hd
        old == IF ty = "VorbisComments" THEN ev.conc.hd ELSE <<>> IN
    If(Same(rem \o gen, all1), "split")
    \o If(Same(LT(ty, ev.merged), all1), "split-merge")
    \o If(vendor(ev.merged) /\ (ty # "Id3v2" \/ ev.merged.hd = ev.conc.hd) /\ (ty # "Ape" \/ ev.merged.hd = ev.conc.hd), "split-merge-head")
    \o If(SameBy(ty, LT(ty, ev.merged2), rem \o ExpTag(ty, ev.gen2)), "edited-merge")
    \o If(VendorOk(ty, ev.merged2, ev.gen2, old), "edited-vendor")
    \o If(Same(ExpTag(ty, ev.conv), gen), "convert")
    \o If(Same(LT(ty, ev.back), kept \o gen), "convert-back")
    \o If(SameBy(ty, LT(ty, ev.back2), kept \o ExpTag(ty, ev.gen2)), "edited-convert-back")
Reasons(ev) ==
    CASE ev.op.a = "PANIC" -> <<"panic">>
      [] ev.op.a = "map" -> MapReasons(ev)
      [] ev.op.a = "from" -> FromReasons(ev)
      [] ev.op.a = "to" -> ToReasons(ev)
      [] ev.op.a = "file" -> FileReasons(ev)
      [] ev.op.a = "split" -> SplitReasons(ev)
Init == l = 0 /\ bad = <<>>
Next ==
    /\ l < Len(Tr)
    /\ l' = l + 1
    /\ LET ev == Tr[l + 1] IN
       LET r == Reasons(ev) IN
       bad' = IF r = <<>> THEN bad ELSE Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> r])
Spec == Init /\ [][Next]_vars
Done == l = Len(Tr) => JsonSerialize(IOEnv.VERDICT, [done |-> l, bad |-> bad])
=============================================================================
