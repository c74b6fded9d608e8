------------------------------ MODULE Id3v2MC ------------------------------
(* The writer machine of the standards: pick a version and a header, put frames, finish. What it wrote is the *)
(* scenario; that the decoder gives back what was put, and that the bytes are well-formed, are the invariants. *)
EXTENDS Id3v2, Json
CONSTANTS Suite, Many
VARIABLES ver, x, o, fs, out
vars == <<ver, x, o, fs, out>>
F(id, k, e, s, n, b) == [id |-> id, fl |-> Fl0, k |-> k, e |-> e, s |-> s, n |-> n, b |-> b, c |-> <<>>]
X0 == [u |-> FALSE, exp |-> FALSE, ext |-> FALSE, foot |-> FALSE, crc |-> FALSE, res |-> 0 - 1, pad |-> 0, upd |-> FALSE]
SYNC == <<255, 224, 0, 255, 0, 255>>
\* ---- headers
Headers(v) ==
    LET us == BOOLEAN pads == {0, 1, 11} IN
    CASE Suite # "flags" -> {X0, [X0 EXCEPT !.u = TRUE], [X0 EXCEPT !.pad = 7]}
      [] v = 2 -> {[X0 EXCEPT !.u = u, !.pad = p] : u \in us, p \in pads}
      [] v = 3 -> {[X0 EXCEPT !.u = u, !.pad = p, !.exp = e, !.ext = h] : u \in us, p \in pads, e \in us, h \in us}
                  \cup {[X0 EXCEPT !.u = u, !.pad = p, !.ext = TRUE, !.crc = TRUE] : u \in us, p \in pads}
      [] OTHER -> {[X0 EXCEPT !.u = u, !.pad = p, !.exp = e] : u \in us, p \in pads, e \in us}
                  \cup {[X0 EXCEPT !.u = u, !.foot = TRUE, !.exp = e] : u \in us, e \in us}
                  \cup {[X0 EXCEPT !.u = u, !.ext = TRUE, !.crc = c, !.res = r, !.upd = d, !.foot = f] :
                        u \in us, c \in us, d \in us, f \in us, r \in {0 - 1, 0, 73, 146, 219, 255}}
                  \cup {[X0 EXCEPT !.pad = p, !.ext = TRUE, !.crc = c, !.res = 255] : p \in pads, c \in us}
\* ---- frames
Str(e) == {<<>>, <<97>>, <<233, 255>>} \cup (IF e = 0 THEN {} ELSE {<<8364>>, <<97, 128512>>, <<97, 65279, 98>>})
Multi(e) == {<<97, 0, 98>>} \cup (IF e = 0 THEN {} ELSE {<<233, 0, 8364, 98, 65534>>})
Enc(v) == EncsOf(v)
LANG == <<101, 110, 103>>
OWN == <<111, 119, 110>>
PNG == <<105, 109, 97, 103, 101, 47, 112, 110, 103>>
Kinds(v) ==
    {F("TIT2", "text", e, <<y>>, <<>>, <<>>) : e \in {0, 1}, y \in Str(0)} \cup UNION {{F("TPE1", "text", e, <<y>>, <<>>, <<>>) : y \in Str(e) \cup Multi(e)} : e \in Enc(v)}
    \cup UNION {{F("TXXX", "txxx", e, <<y, z>>, <<>>, <<>>) : y \in Str(e), z \in Str(e) \cup Multi(e)} : e \in Enc(v)}
    \cup UNION {{F("WXXX", "wxxx", e, <<y, z>>, <<>>, <<>>) : y \in Str(e), z \in Str(0)} : e \in Enc(v)}
    \cup UNION {{F(i, IF i = "COMM" THEN "comm" ELSE "uslt", e, <<y, z>>, <<>>, LANG) : y \in Str(e), z \in Str(e), i \in {"COMM", "USLT"}} : e \in Enc(v)}
    \cup {F("WOAR", "url", 0 - 1, <<y>>, <<>>, <<>>) : y \in Str(0) \ {<<>>}}
    \cup {F("UFID", "ufid", 0 - 1, <<y>>, <<>>, d) : y \in Str(0) \ {<<>>}, d \in {<<>>, SYNC}}
    \cup UNION {{F("APIC", "apic", e, <<m, y>>, <<p>>, d) : m \in {PNG, <<45, 45, 62>>}, y \in Str(e), p \in {0, 3, 20}, d \in {<<1>>, SYNC}} : e \in Enc(v)}
    \cup {F("POPM", "popm", 0 - 1, <<y>>, <<r>>, d) : y \in Str(0), r \in {0, 255}, d \in {[i \in 1..8 |-> 0], [i \in 1..8 |-> IF i < 5 THEN 0 ELSE i], [i \in 1..8 |-> i]}}
    \cup {F("ETCO", "etco", 0 - 1, <<>>, n, <<>>) : n \in {<<1>>, <<2, 3, 0, 0, 0, 1, 22, 0, 0, 1, 0, 253, 255, 0, 0, 0>>}}
    \cup UNION {{F("GEOB", "geob", e, <<m, y, z>>, <<>>, d) : m \in {<<>>, PNG}, y \in Str(e), z \in Str(e), d \in {<<>>, SYNC}} : e \in Enc(v)}
    \cup UNION {{F("SYLT", "sylt", e, y, <<2, 1>> \o SubSeq(<<0, 0, 0, 1, 0, 0, 1, 255>>, 1, 4 * (Len(y) - 1)), LANG) : y \in {<<a, b>> : a \in Str(e), b \in Str(e)} \cup {<<a, b, a>> : a \in Str(e), b \in Str(e)}} : e \in Enc(v)}
    \cup {F("MCDI", "bin", 0 - 1, <<>>, <<>>, SYNC)}
    \cup (IF v = 2 THEN UNION {{F("TIPL", "kv", e, <<y, z>>, <<>>, <<>>) : y \in Str(e), z \in Str(e)} : e \in Enc(v)}
          ELSE {F("PRIV", "priv", 0 - 1, <<y>>, <<>>, d) : y \in Str(0), d \in {<<>>, SYNC}}
               \cup UNION {{F("OWNE", "owne", e, <<p, <<50, 48, 50, 48, 48, 49, 48, 49>>, y>>, <<>>, <<>>) : p \in Str(0), y \in Str(e)} : e \in Enc(v)}
               \cup UNION {{F("TIPL", "kv", e, <<y, z>>, <<>>, <<>>) : y \in Str(e), z \in Str(e)} : e \in Enc(v)}
               \cup {F("CHAP", "chap", 0 - 1, <<OWN>>, <<>>, [i \in 1..16 |-> 16 * i - 1]), F("CTOC", "ctoc", 0 - 1, <<OWN, <<99>>, <<233>>>>, <<3>>, <<>>), F("CTOC", "ctoc", 0 - 1, <<OWN>>, <<0>>, <<>>)}
               \cup {[F("CHAP", "chap", 0 - 1, <<OWN>>, <<>>, [i \in 1..16 |-> 0]) EXCEPT !.c = <<F("TIT2", "text", 1, <<<<97>>>>, <<>>, <<>>), F("WOAR", "url", 0 - 1, <<<<98>>>>, <<>>, <<>>)>>],
                     [F("CTOC", "ctoc", 0 - 1, <<OWN, <<99>>>>, <<2>>, <<>>) EXCEPT !.c = <<F("TIT2", "text", 0, <<<<97>>>>, <<>>, <<>>)>>]}
               \cup UNION {{F("ATXT", "atxt", e, <<PNG, y>>, <<0>>, SYNC) : y \in Str(e)} : e \in Enc(v)})
    \cup (IF v = 4 THEN {F("RVA2", "rva2", 0 - 1, <<y>>, n, <<>>) : y \in Str(0), n \in {<<>>, <<1, 1, 0, 0>>, <<1, 255, 0, 12, 255, 240, 8, 0, 1, 0>>}}
                        \cup {F("TDRC", "time", e, <<>>, n, <<>>) : e \in Enc(v), n \in {<<2020, 0 - 1, 0 - 1, 0 - 1, 0 - 1, 0 - 1>>, <<999, 2, 28, 0 - 1, 0 - 1, 0 - 1>>, <<2020, 2, 29, 23, 59, 59>>}}
                        \cup {F("TMCL", "kv", 3, <<<<97>>, <<98>>, <<97>>, <<>>>>, <<>>, <<>>)}
          ELSE {F("TDRC", "time", e, <<>>, <<y, 0 - 1, 0 - 1, 0 - 1, 0 - 1, 0 - 1>>, <<>>) : e \in {0, 1}, y \in {2020, 999, 1}})
TXT == <<<<97, 98>>>>
ById(v, id) == LET k == KindOf(id) IN
    CASE k = "text" -> {F(id, k, 0, TXT, <<>>, <<>>)} [] k = "url" -> {F(id, k, 0 - 1, TXT, <<>>, <<>>)}
      [] k = "time" -> {F(id, k, 0, <<>>, <<2020, 0 - 1, 0 - 1, 0 - 1, 0 - 1, 0 - 1>>, <<>>)} [] k = "bin" -> {F(id, k, 0 - 1, <<>>, <<>>, <<1, 255>>)} [] OTHER -> {}
V34 == {"AENC", "COMR", "ENCR", "GRID", "LINK", "MCDI", "MLLT", "PCNT", "POSS", "RBUF", "RVRB", "SYTC", "USER", "TALB", "TBPM", "TCOM", "TCON", "TCOP", "TDLY", "TENC", "TEXT", "TFLT", "TIT1",
    "TIT2", "TIT3", "TKEY", "TLAN", "TLEN", "TMED", "TOAL", "TOFN", "TOLY", "TOPE", "TOWN", "TPE1", "TPE2", "TPE3", "TPE4", "TPOS", "TPUB", "TRCK", "TRSN", "TRSO", "TSRC", "TSSE", "WCOM", "WCOP",
    "WOAF", "WOAR", "WOAS", "WORS", "WPAY", "WPUB", "XHD3", "TZZZ", "WZZZ", "ZZZZ", "T111"}
Ids(v) == UNION {ById(v, i) : i \in IF v = 2 THEN {V2Up[j] : j \in DOMAIN V2Up \ {"WFD"}} ELSE V34 \cup (IF v = 3 THEN {"EQUA", "RVAD", "TRDA", "TSIZ", "TDRC", "TDOR"} ELSE {"EQU2", "SEEK", "SIGN", "ASPI", "TMOO", "TPRO", "TSOA", "TSOP", "TSOT", "TSST"} \cup TIMES)}
\* v2.2 identifiers without an equivalent stay as they are
Ids2 == {[F("CRM", "bin", 0 - 1, <<>>, <<>>, <<1>>) EXCEPT !.id = i] : i \in {"CRM", "EQU", "LNK", "RVA", "XYZ"}}
Plain(v) == {F("TIT2", "text", 0, <<<<97>>>>, <<>>, <<>>), F("COMM", "comm", 1, <<<<>>, <<255, 8364>>>>, <<>>, LANG), F(IF v = 2 THEN "MCDI" ELSE "PRIV", IF v = 2 THEN "bin" ELSE "priv", 0 - 1, IF v = 2 THEN <<>> ELSE <<OWN>>, <<>>, SYNC)}
Size(f, v) == Len(EncContent(f, v, "le"))
WithFlags(f, v) ==
    IF v = 2 THEN {f}
    ELSE {LET en == [F0 EXCEPT !.b = SYNC] IN
          [f EXCEPT !.fl = [tap |-> 1 \in st, fap |-> 2 \in st, ro |-> 3 \in st, g |-> g, m |-> 0 - 1, z |-> z, u |-> u /\ v = 4, d |-> IF z \/ (d /\ v = 4) THEN Size(f, v) ELSE 0 - 1]] :
          st \in {{}, {1}, {2}, {3}}, g \in {0 - 1, 255}, z \in BOOLEAN, u \in BOOLEAN, d \in BOOLEAN}
         \cup {[id |-> f.id, fl |-> [Fl0 EXCEPT !.m = 255, !.g = g, !.u = u /\ v = 4, !.z = z, !.d = IF v = 4 \/ z THEN 21 ELSE 0 - 1]] @@ [F0 EXCEPT !.b = SYNC] : g \in {0 - 1, 0}, u \in BOOLEAN, z \in BOOLEAN}
Pick(v) == CASE Suite = "flags" -> UNION {WithFlags(f, v) : f \in Plain(v)} [] Suite = "kinds" -> Kinds(v) [] OTHER -> Ids(v) \cup (IF v = 2 THEN Ids2 ELSE {})
ChoicesOf == [v \in 2..4 |-> Pick(v)]
HeadersOf == [v \in 2..4 |-> Headers(v)]
Allowed(f) == (x.u /\ ver = 4) => f.fl.u
Init == /\ ver \in 2..4 /\ x \in HeadersOf[ver] /\ o \in {"le", "be"} /\ fs = <<>> /\ out = <<>>
        /\ (Suite # "kinds" => o = "le")
Put == /\ out = <<>> /\ Len(fs) < Many
       /\ \E f \in ChoicesOf[ver] :
            LET g == IF Suite # "flags" /\ x.u /\ ver = 4 THEN [f EXCEPT !.fl.u = TRUE] ELSE f IN
            Allowed(g) /\ fs' = Append(fs, g) /\ Distinct(fs')
       /\ UNCHANGED <<ver, x, o, out>>
Finish == /\ out = <<>> /\ fs # <<>> /\ out' = EncTag(ver, x, fs, o) /\ UNCHANGED <<ver, x, o, fs>>
\* (with the dates of ID3v2.3 the order changes)
Emit == PrintT("SCN " \o ToJson([b |-> out, ver |-> ver, fs |-> fs]))
Next == Put \/ Finish \/ (out # <<>> /\ Emit /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
D == Decode(out, "up")
SetOf(q) == {q[i] : i \in DOMAIN q}
\* embedded encryption and data lengths aside, what was put comes back
Norm(f) == IF ver = 3 /\ f.fl.z THEN f ELSE f
RoundTrip == out # <<>> => LET d == D IN
    /\ d.ok /\ d.ver = ver /\ d.total = Len(out) /\ SetOf(d.fs) = {Norm(f) : f \in SetOf(fs)} /\ Len(d.fs) = Len(fs)
    /\ d.u = x.u /\ d.exp = (x.exp /\ ver > 2) /\ d.foot = (x.foot /\ ver = 4) /\ d.crc = (x.ext /\ ver > 2 /\ x.crc) /\ d.res = (IF x.ext /\ ver = 4 THEN x.res ELSE 0 - 1) /\ d.pad = x.pad
\* an unsynchronised tag never looks like audio
NoFalseSync == (out # <<>> /\ x.u) => ~FalseSync(SubSeq(out, 11, Len(out)))
\* the size field covers exactly what follows, and is synchsafe
SizeExact == out # <<>> => /\ \A i \in 7..10 : out[i] < 128
                           /\ Syn(out, 7) + 10 + (IF x.foot /\ ver = 4 THEN 10 ELSE 0) = Len(out)
AllBytes == \A i \in DOMAIN out : out[i] \in 0..255
=============================================================================
