------------------------------- MODULE Streams -------------------------------
(* What an operation may show and leave behind when the same bytes come from
   devices that deliver in other pieces, interrupt, or fail. Evaluated on the
   design model (StreamsMC) and on runs recorded from the real code (StreamsTrace).
   e: [op, ref: [res, changed], runs: seq of [res, bytes, shown],
       faults: seq of [res, eq, same, clean, hit, kinds, once]]
   ref: the run on a plain buffer; bytes/shown/eq: equal to the reference;
   same: the stream still holds what it held; clean: the first failing call came
   before anything was modified; hit: a call did fail *)
EXTENDS Sequences, SequencesExt, Naturals
Map(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]
RunBad(e, r) ==
    IF r.res = "panic" /\ e.ref.res # "panic" THEN <<"panic">>
    ELSE IF r.res # e.ref.res THEN <<"outcome">>
    ELSE IF ~r.bytes THEN <<"bytes">>
    ELSE IF ~r.shown THEN <<"shown">> ELSE <<>>
FaultBad(e, f) ==
    IF f.res = "panic" /\ e.ref.res # "panic" THEN <<"panic">>
    ELSE IF ~f.hit THEN (IF f.eq THEN <<>> ELSE <<"no-fault-but-different">>)
    ELSE IF f.res = "ok" THEN (IF f.eq THEN <<>> ELSE <<"lost">>)
    ELSE IF f.res = "err" /\ f.clean /\ ~f.same THEN <<"modified-after-failure">> ELSE <<>>
StreamsBad(e) ==
    FlattenSeq(Map(e.runs, LAMBDA r : Map(RunBad(e, r), LAMBDA x : e.op.a \o ":" \o x)))
    \o FlattenSeq(Map(e.faults, LAMBDA f : Map(FaultBad(e, f), LAMBDA x : e.op.a \o ":" \o f.kinds \o ":" \o x)))
=============================================================================
