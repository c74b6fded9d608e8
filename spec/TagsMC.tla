------------------------------- MODULE TagsMC -------------------------------
(* The writer machine of the smaller tag formats: pick a format and a layout, put records one by one, write.   *)
(* What it wrote is the scenario; that the decoder gives back exactly what was put is the invariant.           *)
EXTENDS Tags, Json
CONSTANTS Type, Most
VARIABLES x, fs, out
vars == <<x, fs, out>>
RECURSIVE A(_)
A(s) == IF s = "" THEN <<>> ELSE <<CHOOSE c \in 32..126 : SubSeq(PRINTABLE, c - 31, c - 31) = SubSeq(s, 1, 1)>> \o A(SubSeq(s, 2, Len(s)))
Strs == {<<97>>, <<233, 255>>, <<8364, 98>>, <<128512>>}
Num4 == {<<0, 0, 0, 0>>, <<0, 0, 1, 255>>, <<255, 255, 255, 254>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>}
JPG == <<255, 216, 255, 224, 0, 16, 0, 1, 2>>
PNGD == PNGSIG \o <<0, 0>>
Layouts ==
    CASE Type = "Ape" -> [ver : {2000}, hdr : BOOLEAN, ro : BOOLEAN] \cup [ver : {1000}, hdr : {FALSE}, ro : {FALSE}]
      [] Type = "VorbisComments" -> {[up |-> u] : u \in BOOLEAN}
      [] Type = "Mp4Ilst" -> {[loc |-> c, ext |-> e, free |-> f] : c \in {<<0, 0, 0, 0>>, <<1, 2, 21, 85>>}, e \in BOOLEAN, f \in BOOLEAN}
      [] Type = "RiffInfo" -> {[z |-> z] : z \in 0..2}
      [] OTHER -> {[z |-> 0]}
I32(k, id, i, n) == R(k, id, <<>>, <<i>> \o n, <<>>)
Recs ==
    CASE Type = "Ape" -> {R("T", k, <<s>>, <<0>>, <<>>) : k \in {A("Title"), A("ab"), A("Track")}, s \in Strs \cup {<<>>, <<97, 0, 98>>, A("3/12")}}
            \cup (IF x.ver = 1000 THEN {} ELSE {R("L", A("Url"), <<s>>, <<r>>, <<>>) : s \in Strs, r \in {0, 1}} \cup {R("B", A("Bin"), <<>>, <<r>>, d) : d \in {<<>>, <<0>>, <<255, 65, 80, 69, 84, 65, 71, 69, 88>>}, r \in {0, 1}}
                  \cup {R("B", k, <<>>, <<0>>, A("d.jpg") \o <<0>> \o JPG) : k \in {A("Cover Art (Front)"), A("COVER ART (BACK)")}} \cup {R("T", A("ro"), <<<<97>>>>, <<1>>, <<>>)})
      [] Type = "VorbisComments" -> {R("c", k, <<s>>, <<>>, <<>>) : k \in {A("TITLE"), A("Title"), A("A B}")}, s \in Strs \cup {A("a=b"), <<>>}}
            \cup {R("c", k, <<s>>, <<>>, <<>>) : k \in {A("TRACKNUMBER"), A("discnumber")}, s \in {A("7"), A("03"), A("3/12"), A("A1"), A("A1/9"), A("3/")}}
            \cup {R("pic", <<>>, <<m, d>>, <<t>> \o w \o <<0, 0, 0, 24>> \o <<0, 0, 0, 0>>, b) : m \in {MIMEPNG, MIMEJPG}, d \in {<<>>, <<233>>}, t \in {0, 3, 20}, w \in {<<0, 0, 0, 1, 0, 0, 2, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>>}, b \in {PNGD, JPG}}
      [] Type = "Mp4Ilst" -> LET ids == {A("tit1"), CGEN, A("com.apple.iTunes") \o <<0>> \o A("X"), A("m") \o <<0>> \o <<233>>} IN
            {R(k, id, <<s>>, <<i>>, <<>>) : k \in {"u8", "u16"}, id \in ids, s \in Strs, i \in {0, 1}} \cup {I32(k, id, i, n) : k \in {"si", "ui"}, id \in {A("tmpo"), A("m") \o <<0>> \o <<233>>}, i \in {0, 1}, n \in Num4}
            \cup {R("bool", id, <<>>, <<0, v>>, <<>>) : id \in BOOLS, v \in {0, 1}} \cup {R("pic", COVR, <<>>, <<i, c>>, d) : c \in {0, 12, 13, 14, 27}, d \in {PNGD, JPG}, i \in {0, 1}}
            \cup {R("x", A("trkn"), <<>>, <<0, 0>>, <<0, 0, 0, 3, 0, 9, 0, 0>>), R("x", PLID, <<>>, <<0, 21>>, <<0, 0, 0, 0, 1, 2, 3, 4>>), R("x", A("abcd"), <<>>, <<0, 77>>, <<1>>), R("x", GNRE, <<>>, <<0, 0>>, <<0, 18>>), R("x", GNRE, <<>>, <<0, 0>>, <<0, 1>>)}
      [] Type = "RiffInfo" -> {R("c", k, <<s>>, <<>>, <<>>) : k \in {A("INAM"), A("abc "), A("IPRT")}, s \in Strs}
      [] Type = "AiffText" -> {R(k, <<>>, <<s>>, <<>>, <<>>) : k \in {"NAME", "AUTH", "(c) ", "ANNO"}, s \in Strs} \cup {R("COMT", <<>>, <<s>>, t \o <<m>>, <<>>) : s \in Strs \cup {<<>>}, t \in Num4, m \in {0, 258, 65535}}
      [] OTHER -> {R(k, <<>>, <<s>>, <<>>, <<>>) : k \in {"title", "artist", "album", "comment"}, s \in {<<97>>, <<233, 255>>, [i \in 1..28 |-> 64 + i]} } \cup {R(k, <<>>, <<[i \in 1..30 |-> 64 + i]>>, <<>>, <<>>) : k \in {"title", "artist", "album"}}
            \cup {R("year", <<>>, <<>>, <<y>>, <<>>) : y \in {0, 7, 1999, 9999}} \cup {R("track", <<>>, <<>>, <<y>>, <<>>) : y \in {1, 255}} \cup {R("genre", <<>>, <<>>, <<y>>, <<>>) : y \in {0, 17, 191}}
Rank(k) == CASE k = "title" -> 1 [] k = "artist" -> 2 [] k = "album" -> 3 [] k = "comment" -> 4 [] k = "year" -> 5 [] k = "track" -> 6 [] k = "genre" -> 7 [] OTHER -> 0
Fits(f) ==
    CASE Type = "Ape" -> \A i \in DOMAIN fs : LowK(fs[i].id) # LowK(f.id)
      [] Type = "VorbisComments" -> f.k = "c" => LowK(f.id) \notin {TRACKN, DISCN} \/ \A i \in DOMAIN fs : LowK(fs[i].id) # LowK(f.id)
      [] Type = "Mp4Ilst" -> IF f.n[1] = 0 THEN \A i \in DOMAIN fs : fs[i].id # f.id ELSE fs # <<>> /\ fs[Len(fs)].id = f.id /\ fs[Len(fs)].n[1] = f.n[1] - 1
      [] Type = "AiffText" -> f.k \in {"ANNO", "COMT"} \/ \A i \in DOMAIN fs : fs[i].k # f.k
      [] Type = "Id3v1" -> \A i \in DOMAIN fs : Rank(fs[i].k) < Rank(f.k)
      [] OTHER -> TRUE
Vendor == R("vendor", <<>>, <<<<118, 233>>>>, <<>>, <<>>)
All == IF Type = "VorbisComments" THEN <<Vendor>> \o fs ELSE fs
Bytes == CASE Type = "Ape" -> ApeEnc(All, x.ver, x.hdr, x.ro) [] Type = "VorbisComments" -> VcEnc(All, x.up) [] Type = "Mp4Ilst" -> IlstEnc(All, x.loc, x.ext, x.free)
           [] Type = "RiffInfo" -> InfoEnc(All, x.z) [] Type = "AiffText" -> AiffEnc(All) [] OTHER -> V1Enc(All)
Init == x \in Layouts /\ fs = <<>> /\ out = <<>>
Put == /\ out = <<>> /\ Len(fs) < Most
       /\ \E f \in Recs : Fits(f) /\ fs' = Append(fs, f)
       /\ UNCHANGED <<x, out>>
Write == /\ out = <<>> /\ fs # <<>>
         /\ out' = Bytes /\ UNCHANGED <<x, fs>>
         /\ PrintT("SCN " \o ToJson([type |-> Type, b |-> Bytes]))
Next == Put \/ Write
Spec == Init /\ [][Next]_vars
Back == out # <<>> => LET d == Dec(Type, out) IN d.ok /\ (IF Type = "AiffText" THEN Sorted(Type, d.fs) = Sorted(Type, All) ELSE IF Type = "Id3v1" THEN ToSet(d.fs) = ToSet(All) ELSE d.fs = All) /\ (Type = "Ape" => d.ro = x.ro)
AllBytes == \A i \in DOMAIN out : out[i] \in 0..255
\* cutting anything off the end is noticed
Exact == out # <<>> /\ Type \in {"Ape", "VorbisComments", "Mp4Ilst", "RiffInfo", "Id3v1"} => ~Dec(Type, SubSeq(out, 1, Len(out) - 1)).ok
\* switching the pictures off leaves the others
ArtOff == out # <<>> => LET d == Dec(Type, out) IN \A f \in ToSet(See(Type, d.fs, FALSE, FALSE)) : ~IsArt(Type, f)
=============================================================================
