-------------------------------- MODULE Ways --------------------------------
(* One tag, written through every entry point: what each of them leaves in the
   file and what serialising the tag alone yields. Evaluated on the design
   model (WaysMC) and on results recorded from the real code (WaysTrace).
   e: [fmt, type, before, ways: seq of [group, way, res, hash, len, seen], dump, gdump, cdump] *)
EXTENDS FileSpec
Tagged(w) == w.way \in {"tagged", "taggedpath", "taggedfile", "bound", "edited"}
Whole(w) == w.way \in {"bound", "edited", "own"}
Bags(ts) == Map(ts, LAMBDA t : [t EXCEPT !.items = <<Bag(@)>>])
Same(ty, a, b) ==       \* frames of a generic tag come in no particular order
    IF ty = "Id3v2" /\ a.group = "generic" THEN a.len = b.len /\ Bags(a.seen) = Bags(b.seen) ELSE a.hash = b.hash
WayBad(e, a, b) ==      \* b is the reference way of the group
    IF e.type \notin Writable(e.fmt)
    THEN (IF Whole(a) THEN <<>>
          ELSE (IF a.hash # e.before THEN <<"unsupported-but-changed">> ELSE <<>>)
               \o (IF (a.res = "ok") # Tagged(a) THEN <<"unsupported">> ELSE <<>>))
    ELSE (IF a.res # b.res THEN <<"outcome">> ELSE IF ~Same(e.type, a, b) THEN <<"stored">> ELSE <<>>)
Ref(ws, g) == LET s == Filter(ws, LAMBDA w : w.group = g /\ w.way = "cursor") IN s[1]
DumpBad(e) ==
    IF e.dump.res = "none" \/ e.type \notin Writable(e.fmt) THEN <<>>
    ELSE LET c == Ref(e.ways, "concrete") IN
         (IF c.res = "ok" /\ e.dump.res # "ok" THEN <<"dump-refused">> ELSE <<>>)
         \o (IF c.res = "ok" /\ ~e.dump.in /\ c.seen # <<>> /\ c.seen[1].items # <<>> /\ ~(e.dump.pics /\ e.fmt = "flac") THEN <<"dump-not-in-file">> ELSE <<>>)
GDumpBad(e) ==
    IF e.gdump.res # e.cdump.res THEN <<"generic-dump-outcome">>
    ELSE IF e.gdump.len # e.cdump.len \/ (e.type # "Id3v2" /\ e.gdump.hash # e.cdump.hash) THEN <<"generic-dump">> ELSE <<>>
WaysBad(e) ==
    FlattenSeq(Map(e.ways, LAMBDA w : Map(WayBad(e, w, Ref(e.ways, w.group)), LAMBDA x : w.group \o "-" \o w.way \o ":" \o x))) \o DumpBad(e) \o GDumpBad(e)
=============================================================================
