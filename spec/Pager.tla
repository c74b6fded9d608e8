------------------------------- MODULE Pager -------------------------------
(* Ogg framing. A packet of n bytes is laced as n \div Seg full segments and
   one shorter one; pages carry up to MaxSegs segments. Seg is 255 for real
   streams and small in the exhaustive design model. *)
EXTENDS Common
NoGranule == "18446744073709551615"
Bit(x, b) == (x \div b) % 2 = 1

Lacing(Seg, n) == [i \in 1..(n \div Seg) |-> Seg] \o <<n % Seg>>
RECURSIVE LacingAll(_, _)
LacingAll(Seg, lens) == IF lens = <<>> THEN <<>> ELSE Lacing(Seg, lens[1]) \o LacingAll(Seg, Tail(lens))
(* packets completed in a list of pages (each with a segment table) *)
RECURSIVE FoldSegs(_, _, _, _)
FoldSegs(Seg, segs, open, acc) ==
    IF segs = <<>> THEN [open |-> open, acc |-> acc]
    ELSE IF segs[1] = Seg THEN FoldSegs(Seg, Tail(segs), open + Seg, acc)
    ELSE FoldSegs(Seg, Tail(segs), 0, Append(acc, open + segs[1]))
RECURSIVE FoldPages(_, _, _, _)
FoldPages(Seg, pages, open, acc) ==
    IF pages = <<>> THEN acc
    ELSE LET f == FoldSegs(Seg, pages[1].segs, open, acc) IN FoldPages(Seg, Tail(pages), f.open, f.acc)
PacketLens(Seg, pages) == FoldPages(Seg, pages, 0, <<>>)
SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
Ends(Seg, p) == \E i \in DOMAIN p.segs : p.segs[i] < Seg

(* what a written sequence of pages has to look like *)
PageBad(Seg, MaxSegs, pages, i, serial, gran, flags) ==
    LET p == pages[i]
        cont == i > 1 /\ pages[i - 1].segs # <<>> /\ pages[i - 1].segs[Len(pages[i - 1].segs)] = Seg IN
    (IF p.v # 0 THEN <<"version">> ELSE <<>>)
    \o (IF Len(p.segs) \notin 1..MaxSegs \/ SumSeq(p.segs) # p.size THEN <<"segments">> ELSE <<>>)
    \o (IF ~p.crc THEN <<"checksum">> ELSE <<>>)
    \o (IF p.seq # i - 1 THEN <<"sequence">> ELSE <<>>)
    \o (IF p.serial # serial THEN <<"serial">> ELSE <<>>)
    \o (IF p.gran # (IF Ends(Seg, p) THEN gran ELSE NoGranule) THEN <<"granule">> ELSE <<>>)
    \o (IF Bit(p.flag, 1) # cont THEN <<"continued-flag">> ELSE <<>>)
    \o (IF Bit(p.flag, 2) # (i = 1 /\ Bit(flags, 2)) THEN <<"bos-flag">> ELSE <<>>)
    \o (IF Bit(p.flag, 4) # (i = Len(pages) /\ Bit(flags, 4)) THEN <<"eos-flag">> ELSE <<>>)
    \o (IF p.flag > 7 THEN <<"flags">> ELSE <<>>)
PagesBad(Seg, MaxSegs, pages, lens, serial, gran, flags) ==
    FlattenSeq([i \in DOMAIN pages |-> PageBad(Seg, MaxSegs, pages, i, serial, gran, flags)])
    \o (IF PacketLens(Seg, pages) # lens THEN <<"packets-differ">> ELSE <<>>)
    \o (IF SumSeq([i \in DOMAIN pages |-> pages[i].size]) # SumSeq(lens) THEN <<"content-size">> ELSE <<>>)
=============================================================================
