------------------------------ MODULE FileSpec ------------------------------
(* What an edit of a file may and must do, stated on the abstract file:
     audio   the encoded audio and the structures that describe it (digests)
     units   metadata the library does not model as a tag, in order
     decl    declarations (sizes, counts, checksums, sequence numbers) that do
             not match what the bytes contain
     refs    what every stored offset addresses
     raw     how many tags of each type the bytes contain
     tags    the tags read back, gen the generic view of the whole file
     props   the audio properties read back
   The same relation is evaluated on the design model (FileMC) and on the
   events recorded from the real code (FileTrace). *)
EXTENDS Common

Formats == {"mpeg","aac","ape","wv","mpc","wav","aiff","flac","vorbis","opus","speex","mp4"}
TagTypes == {"Ape","Id3v1","Id3v2","Mp4Ilst","VorbisComments","RiffInfo","AiffText"}

(* which tag types a format holds (documented support tables) *)
Writable(fmt) ==
    CASE fmt = "mpeg" -> {"Id3v2", "Id3v1", "Ape"}
      [] fmt = "aac" -> {"Id3v2", "Id3v1"}
      [] fmt = "ape" -> {"Ape", "Id3v1"}
      [] fmt = "mpc" -> {"Ape"}
      [] fmt = "wv" -> {"Ape", "Id3v1"}
      [] fmt = "wav" -> {"Id3v2", "RiffInfo"}
      [] fmt = "aiff" -> {"Id3v2", "AiffText"}
      [] fmt = "flac" -> {"VorbisComments"}
      [] fmt \in {"vorbis", "opus", "speex"} -> {"VorbisComments"}
      [] fmt = "mp4" -> {"Mp4Ilst"}
      [] OTHER -> {}
ReadOnly(fmt) ==
    CASE fmt = "ape" -> {"Id3v2"}
      [] fmt = "mpc" -> {"Id3v2", "Id3v1"}
      [] fmt = "flac" -> {"Id3v2"}
      [] OTHER -> {}
Readable(fmt) == Writable(fmt) \cup ReadOnly(fmt)

TagOf(F, ty) == Filter(F.tags, LAMBDA t : t.type = ty)
GenOf(F, ty) == Filter(F.gen, LAMBDA t : t.type = ty)
RawOf(F, ty) == LET s == Filter(F.raw, LAMBDA r : r.ty = ty) IN IF s = <<>> THEN 0 ELSE s[1].n
(* an empty tag and no tag say the same thing *)
ItemsOf(F, ty) == LET t == TagOf(F, ty) IN IF t = <<>> THEN <<>> ELSE t[1].items
HdOf(F, ty) == LET t == TagOf(F, ty) IN IF t = <<>> \/ t[1].items = <<>> THEN <<>> ELSE t[1].hd


RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF a[1] = b[1] THEN SubSeqOf(Tail(a), Tail(b)) ELSE SubSeqOf(a, Tail(b))
RECURSIVE Minus(_, _)   \* b without the subsequence a
Minus(b, a) == IF b = <<>> THEN <<>> ELSE IF a # <<>> /\ a[1] = b[1] THEN Minus(Tail(b), Tail(a))
               ELSE <<b[1]>> \o Minus(Tail(b), a)

(* ---------------- what a tag reads back as ---------------- *)
V23Enc(x) == IF x \in {"U8", "U16B"} THEN "U16" ELSE x
HasEnc(i) == i.k \in {"text", "txxx", "wxxx", "comm", "uslt", "apic", "kv", "ts", "owne"}
NormV2Item(i, v23) == IF v23 /\ HasEnc(i) /\ Len(i.f) > 0 THEN [i EXCEPT !.f[1] = V23Enc(@)] ELSE i
V1Len(id) == IF id = "comment" THEN 28 ELSE 30

V23(o) == "v23" \in DOMAIN o /\ o.v23
NormItems(ty, tag, o) ==
    CASE ty = "Id3v2" -> Map(tag.items, LAMBDA i : NormV2Item(i, V23(o)))
      [] OTHER -> tag.items
Prefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
(* tag flags a version or container has no room for are not stored *)
NormHd(ty, hd, fmt, v23) ==
    IF ty # "Id3v2" THEN hd
    ELSE Filter(hd, LAMBDA h : /\ h # "unsync"
                               /\ ~(h = "footer" /\ (v23 \/ fmt \in {"wav", "aiff"}))
                               /\ ~(v23 /\ Prefix(h, "restr")))
(* order is meaningful unless the document says otherwise *)
Bag(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
SameItems(a, b, unordered) == IF unordered THEN Bag(a) = Bag(b) ELSE a = b

(* generic tags reach ID3v2 through hash maps: frame order is unspecified;
   AIFF text chunks are grouped by kind *)
Unordered(op, ty) == \/ ty = "Id3v2" /\ op.a = "save" /\ op.via \in {"gen", "genpath", "conv", "tagged", "taggedpath"}
                     \/ op.a = "savegen"
                     \/ ty = "AiffText"

(* ---------------- the relation ---------------- *)
IsWrite(op) == op.a \in {"save", "savegen", "resave"}
EmptyVia(op) == op.a = "remove"
Edit(op) == op.a \notin {"open"}

(* AAC: the ten header bytes of an ID3v2 tag are counted as audio, so only the duration
   differs, by a few milliseconds, when one comes or goes *)
Ms(p) == StrNat(SubSeq(p[1], 3, Len(p[1])))
Abs(x) == IF x < 0 THEN -x ELSE x
AacHeaderOnly(fmt, F, G) ==
    /\ fmt = "aac" /\ Len(F.props) = Len(G.props) /\ Tail(F.props) = Tail(G.props)
    /\ Abs(Ms(F.props) - Ms(G.props)) <= 5 * Abs(RawOf(F, "Id3v2") - RawOf(G, "Id3v2"))

C01Bad(F, e) ==
    LET G == e.F IN
    (IF G.audio # F.audio THEN <<"audio">> ELSE <<>>)
    \o (IF \E i \in DOMAIN G.decl : ~ \E j \in DOMAIN F.decl : F.decl[j].w = G.decl[i].w THEN <<"declared-sizes">> ELSE <<>>)
    \o (IF G.refs # F.refs THEN <<"offsets">> ELSE <<>>)
    \o (IF F.props = <<>> \/ G.props = F.props THEN <<>>
        ELSE IF AacHeaderOnly(e.fmt, F, G) THEN <<"aac-tag-header-counted">> ELSE <<"properties">>)
    \o (IF F.rerr = "" /\ G.rerr # "" THEN <<"unreadable">> ELSE <<>>)
    \o (IF F.ft # G.ft THEN <<"file-type">> ELSE <<>>)

(* the scenario says of an edit that its values do not fit into the format *)
Big(op) == "big" \in DOMAIN op /\ op.big
C02Bad(F, e) ==
    LET G == e.F ty == e.op.type IN
    IF e.op.a # "save" \/ ty \notin Writable(e.fmt) THEN <<>>
    ELSE IF e.res # "ok" THEN (IF F.rerr = "" /\ ~Big(e.op) /\ e.res = "err" THEN <<"refused">> ELSE <<>>)
    ELSE
    LET want == NormItems(ty, e.tag, e.op.o)
        got == ItemsOf(G, ty) IN
    (* an ID3v2.3 tag stores a date as several frames, joined at the end when read *)
    (IF ~SameItems(want, got, Unordered(e.op, ty) \/ (V23(e.op.o) /\ \E i \in DOMAIN want : want[i].k = "ts")) THEN <<"read-back">> ELSE <<>>)
    \o (IF ty \in {"Ape", "Id3v2"} /\ want # <<>> /\ TagOf(G, ty) # <<>> /\ HdOf(G, ty) # NormHd(ty, e.tag.hd, e.fmt, V23(e.op.o)) THEN <<"tag-flags">> ELSE <<>>)
    \o (IF want # <<>> /\ RawOf(G, ty) # 1 /\ ~(ty = "VorbisComments" /\ RawOf(G, ty) = 0 /\ RawOf(G, "FlacPicture") > 0) THEN <<"count">> ELSE <<>>)

(* saving a whole file may join several lists of one type *)
WholeFile(op) == op.via \in {"own", "tagged", "taggedpath"}
(* containers may gain structure a new tag needs *)
Gained == {"moov/udta/meta/hdlr"}
Others(F, ty, e) == Map(Filter(F.tags, LAMBDA t : t.type # ty), LAMBDA t :
    IF ~WholeFile(e.op) THEN t
    ELSE [t EXCEPT !.items = NormItems(t.type, t, e.op.o), !.hd = NormHd(t.type, @, e.fmt, V23(e.op.o))])
RawOthers(F, ty, whole) == Map(Filter(F.raw, LAMBDA r : r.ty # ty /\ ~(r.ty = "FlacPicture" /\ ty = "VorbisComments")),
        LAMBDA r : [r EXCEPT !.n = IF whole THEN Min2(@, 1) ELSE @])
GenOthers(F, ty) == Filter(F.gen, LAMBDA t : t.type # ty)
C03Bad(F, e) ==
    LET G == e.F ty == e.op.type IN
    IF e.op.a = "resaveall" THEN
        (IF ~SubSeqOf(F.units, G.units) THEN <<"foreign-metadata">> ELSE <<>>)
    ELSE
    (IF Others(F, ty, e) # Others(G, ty, e) \/ GenOthers(F, ty) # GenOthers(G, ty) THEN <<"other-tags">> ELSE <<>>)
    \o (IF RawOthers(F, ty, WholeFile(e.op)) # RawOthers(G, ty, WholeFile(e.op)) THEN <<"other-tags-raw">> ELSE <<>>)
    \o (IF ~SubSeqOf(F.units, G.units) THEN <<"foreign-metadata">> ELSE
        IF \E i \in DOMAIN Minus(G.units, F.units) : Minus(G.units, F.units)[i].id \notin Gained THEN <<"invented-metadata">> ELSE <<>>)
    \o (IF ty = "VorbisComments" /\ TagOf(F, ty) # <<>> /\ TagOf(G, ty) # <<>> /\ RawOf(F, ty) > 0 /\ RawOf(G, ty) > 0 /\ TagOf(G, ty)[1].hd # TagOf(F, ty)[1].hd
        THEN <<"vendor">> ELSE <<>>)

Mandatory(fmt, ty) == ty = "VorbisComments" /\ fmt \in {"vorbis", "opus", "speex"}
C04Bad(F, e) ==
    LET G == e.F ty == e.op.type IN
    IF e.op.a # "remove" THEN <<>> ELSE
    (IF F.rerr = "" /\ ty \in Readable(e.fmt) /\ e.op.via \in {"", "type", "path", "ext"} /\ e.res # "ok" THEN <<"refused">> ELSE <<>>)
    \o (IF ty \notin Readable(e.fmt) /\ e.res = "ok" THEN <<"accepted-unsupported">> ELSE <<>>)
    \o (IF e.res = "ok" /\ ty \in Readable(e.fmt) THEN
          (IF ItemsOf(G, ty) # <<>> \/ (GenOf(G, ty) # <<>> /\ (GenOf(G, ty)[1].pics # <<>> \/
                 (GenOf(G, ty)[1].items # <<>> /\ ~Mandatory(e.fmt, ty)))) THEN <<"still-there">> ELSE <<>>)
          \o (IF (~Mandatory(e.fmt, ty) /\ RawOf(G, ty) # 0) \/ (ty = "VorbisComments" /\ RawOf(G, "FlacPicture") # 0) THEN <<"bytes-left">> ELSE <<>>)
          \o (IF ItemsOf(F, ty) = <<>> /\ (RawOf(F, ty) = 0 \/ (Mandatory(e.fmt, ty) /\ e.op.rep /\ e.prevres = "ok"))
                 /\ RawOf(F, "FlacPicture") = 0 /\ ~e.same
              THEN <<"absent-but-changed">> ELSE <<>>)
        ELSE <<>>)

C05Bad(F, e) ==
    LET G == e.F ty == e.op.type IN
    (IF e.op.rep /\ e.res = "ok" /\ e.prevres = "ok" THEN
        (* an ilst added behind existing padding moves in front of it on the next save *)
        IF e.op.a \in {"save", "savegen"} /\ (Unordered(e.op, ty) \/ ty = "Mp4Ilst") THEN
            IF G.len # F.len THEN <<"repeat-changes-size">> ELSE <<>>
        ELSE IF ~e.same THEN <<"repeat-changes-bytes">> ELSE <<>>
     ELSE <<>>)
    \o (IF e.op.a = "resave" /\ e.res = "ok" /\ TagOf(F, ty) # <<>>
           /\ ~(SameItems(NormItems(ty, [items |-> ItemsOf(F, ty)], e.op.o), ItemsOf(G, ty), FALSE) /\ (NormHd(ty, HdOf(F, ty), e.fmt, V23(e.op.o)) = HdOf(G, ty)))
        THEN <<"resave-changes-tag">> ELSE <<>>)
    \o (IF e.op.a = "resave" /\ TagOf(F, ty) # <<>> /\ ty \in Writable(e.fmt) /\ e.res # "ok" THEN <<"resave-refused">> ELSE <<>>)

C06Bad(F, e) ==
    (IF e.res = "panic" THEN <<"panic">> ELSE <<>>)
    \o (IF e.res = "ok" /\ Big(e.op) THEN <<"accepted-too-big">> ELSE <<>>)
    \o (IF e.res = "err" /\ ~e.same THEN <<"error-but-changed">> ELSE <<>>)
    \o (IF e.res = "ok" /\ e.op.a \in {"save", "savegen"} /\ e.op.via \notin {"tagged", "taggedpath"} /\ e.op.type \notin Writable(e.fmt)
        THEN <<"accepted-unsupported">> ELSE <<>>)
    \o (IF e.op.via \in {"tagged", "taggedpath"} /\ e.op.type \notin Writable(e.fmt) /\ ~e.same THEN <<"unsupported-but-changed">> ELSE <<>>)
    \o (IF e.res = "ok" /\ e.op.a = "save" /\ e.op.type \in Writable(e.fmt) /\ e.tag.items # <<>> /\ ItemsOf(e.F, e.op.type) = <<>>
        THEN <<"success-but-not-stored">> ELSE <<>>)

Bad(p, F, e) ==
    CASE p = "C01" -> C01Bad(F, e)
      [] p = "C02" -> C02Bad(F, e)
      [] p = "C03" -> C03Bad(F, e)
      [] p = "C04" -> C04Bad(F, e)
      [] p = "C05" -> C05Bad(F, e)
      [] p = "C06" -> C06Bad(F, e)
=============================================================================
