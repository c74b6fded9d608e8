------------------------------ MODULE Layouts ------------------------------
(* The file layouts explored: a layout is a sequence of regions. A region has
   the token the harness builds real bytes from (tok; "" for the tail regions
   of a token that builds several), its kind and its length in the model. *)
EXTENDS FileSpec
R(tok, k, ty, len) == [tok |-> tok, k |-> k, ty |-> ty, len |-> len, c |-> IF k = "tag" THEN "old" ELSE ""]
Tg(tok, ty) == R(tok, "tag", ty, 3)
Au(tok) == R(tok, "audio", "", 5)
Fo(tok) == R(tok, "foreign", "", 2)
Pd(tok) == R(tok, "pad", "", 2)
S1(x) == {<<x>>}
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
One(S) == {<<x>> : x \in S}
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN {<<>>}
              ELSE {a \o b : a \in ss[1], b \in CatAll(Tail(ss))}

V2s(full) == {Tg("v2.4#2", "Id3v2"), Tg("v2.3+p300#1", "Id3v2")} \cup
    (IF full THEN {Tg("v2.4+f#1", "Id3v2"), Tg("v2.2#1", "Id3v2"), Tg("v2.4+x#2", "Id3v2"), Tg("v2.4+u#3", "Id3v2")} ELSE {})
ApeEnds(full) == {Tg("ape+h#2", "Ape")} \cup (IF full THEN {Tg("ape#1", "Ape"), Tg("ape+h#3", "Ape")} ELSE {})
Tail1 == <<Opt({Fo("lyr")}), Opt({Tg("v1", "Id3v1")})>>

Layouts(fmt, full) ==
    CASE fmt = "mpeg" -> CatAll(<<Opt(V2s(full)), IF full THEN Opt({R("junk:10", "audio", "", 1), Tg("ape+h#1", "Ape")}) ELSE {<<>>}, One({Au("audio:12"), Au("audio+magic:12")}), Opt(ApeEnds(full))>> \o Tail1)
      [] fmt = "aac" -> CatAll(<<Opt(V2s(full)), One({Au("audio:12"), Au("audio+magic:12")}), Opt({Tg("v1", "Id3v1")})>>)
      [] fmt = "ape" -> CatAll(<<Opt(V2s(full)), One({Au("audio:400"), Au("audio+magic:400")}), Opt(ApeEnds(full))>> \o Tail1)
      [] fmt = "wv" -> CatAll(<<One({Au("audio:3"), Au("audio+magic:3")}), Opt(ApeEnds(full))>> \o Tail1)
      [] fmt = "mpc" -> CatAll(<<Opt(V2s(full)), One({Au("audio:300"), Au("audio+magic:300"), Au("audio+sv7:300")}), Opt(ApeEnds(full))>> \o Tail1)
      [] fmt = "wav" -> CatAll(<<S1(Au("fmt")), Opt({Tg("INFO#2", "RiffInfo")} \cup IF full THEN {Tg("INFO+odd#1", "RiffInfo"), Pd("JUNK:28")} ELSE {}),
                                 Opt({Fo("unk:13"), Fo("adtl")}), One({Au("data:400"), Au("data+magic:401")}),
                                 Opt({Tg("id3#2", "Id3v2")} \cup IF full THEN {Tg("id3+odd+up#1", "Id3v2"), Tg("INFO#1", "RiffInfo")} ELSE {}),
                                 Opt({Fo("cue"), Fo("unk:9")}), IF full THEN Opt({Tg("id3#1", "Id3v2")}) ELSE {<<>>}>>)
      [] fmt = "aiff" -> CatAll(<<S1(Au("COMM")), Opt({Tg("NAME", "AiffText")} \cup IF full THEN {Tg("NAME+odd", "AiffText")} ELSE {}),
                                  Opt({Fo("unk:13"), Fo("MARK")}), One({Au("SSND:400"), Au("SSND+magic:401")}),
                                  Opt({Tg("ID3#2", "Id3v2")} \cup IF full THEN {Tg("ID3+lo#3", "Id3v2")} ELSE {}),
                                  Opt({Tg("ANNO+odd", "AiffText"), Tg("COMT#2", "AiffText")} \cup IF full THEN {Tg("COMT+odd#2", "AiffText"), Tg("AUTH", "AiffText")} ELSE {})>>)
      [] fmt = "flac" -> CatAll(<<Opt({Tg("v2.4#2", "Id3v2")}), S1(Au("SI")), Opt({Pd("PAD:100"), Fo("APPL")}),
                                  Opt({Tg("VC#2", "VorbisComments")} \cup IF full THEN {Tg("PIC", "FlacPicture")} ELSE {}),
                                  Opt({Fo("CUE"), Tg("PIC#1", "FlacPicture")} \cup IF full THEN {Fo("RES"), Fo("SEEK"), Tg("VC#1", "VorbisComments")} ELSE {}),
                                  Opt({Pd("PAD:4000")}), One({Au("audio:300"), Au("audio+magic:300")} \cup IF full THEN {Au("audio:70001")} ELSE {})>>)
      [] fmt \in {"vorbis", "opus", "speex"} ->
            CatAll(<<One({Tg("vc#2", "VorbisComments"), Tg("vc#0", "VorbisComments"), Tg("vc+own#1", "VorbisComments"), Tg("vc#90", "VorbisComments"), Tg("vc+s3#3", "VorbisComments")}),
                     IF fmt = "vorbis" THEN One({Au("setup:300"), Au("setup:70000")}) ELSE {<<>>},
                     One({Au("audio:3:120"), Au("audio:2:0"), Au("audio:1:30000")}),
                     IF full THEN Opt({Fo("mux"), Fo("noise:9"), Fo("chain")}) ELSE {<<>>}>>)
      [] fmt = "mp4" ->
            LET host(m, d) == R(m, "audio", "", d)
                il == Tg("", "Mp4Ilst")
                (* moov variants; the regions after the token's own are what the token contains *)
                moovs == {<<host("moov[mvhd,trak:3,udta[meta[hdlr,ilst#2,free:100]]]", 5), il, Pd("")>>,
                          <<host("moov[mvhd,trak:3,udta[meta[hdlr,free:40,ilst#2]]]", 5), Pd(""), il>>,
                          <<host("moov[mvhd,trak:3,udta[meta[hdlr,ilst#2]]]", 5), il>>,
                          <<host("moov[mvhd,trak+co64:3,udta[chpl,meta[hdlr,ilst#3],name]]", 5), il, Fo("")>>,
                          <<host("moov[mvhd,trak:3,udta[chpl]]", 5)>>,
                          <<host("moov[mvhd,trak+co64:3,udta[meta[hdlr]]]", 5)>>,
                          <<host("moov[mvhd,trak:2,trak+co64+text:2]", 5)>>,
                          <<host("moov[mvhd,udta[meta[hdlr,ilst#1]],trak:3]", 5), il>>}
                    \cup IF full THEN {<<host("moov[mvhd,trak+both:3,udta[meta+qt[hdlr,ilst#2]]]", 5), il>>,
                          <<host("moov@64[mvhd,trak:3,udta[meta[hdlr,ilst#2]]]", 5), il>>,
                          <<host("moov@64[mvhd,trak:3]", 5)>>,
                          <<host("moov[mvhd,trak:3,udta@64[meta[hdlr,ilst#2]]]", 5), il>>,
                          <<host("moov[mvhd,trak:3,mvex[trex],udta[meta[hdlr,ilst#2]]]", 5), il>>,
                          <<host("moov[mvhd,trak:3,udta[meta[hdlr,ilst0]]]", 5)>>,
                          <<host("moov[mvhd,trak:3[udta[name]],udta[meta[hdlr,ilst#2,free:0]]]", 5), il>>} ELSE {}
                tails(m) == {<<m>> \o x : x \in {<<Au("mdat:400")>>, <<Pd("free:20"), Au("mdat+magic:400")>>}}
            IN CatAll(<<S1(Au("ftyp")), moovs, {<<Au("mdat:400")>>, <<Pd("free:20"), Au("mdat+magic:400")>>}
                  \cup IF full THEN {<<Fo("uuid"), Au("mdat@64:400")>>, <<Au("mdat@0:400")>>, <<Au("moof[mfhd,traf+abs:20]"), Au("mdat:400")>>,
                                     <<Au("moof[mfhd,traf+abs:20]"), Au("mdat:400"), Au("moof[mfhd,traf+abs:70]"), Au("mdat:100")>>} ELSE {}>>)
                \cup CatAll(<<S1(Au("ftyp")), {<<Au("mdat:400")>>}, moovs>>)
      [] OTHER -> {}
=============================================================================
