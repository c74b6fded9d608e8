-------------------------------- MODULE Conv --------------------------------
(* What a tag says, independent of how it is represented.
   Logical(ty, items)  the content of a format specific tag
   Exp(ty, items)      the content a list of generic items stands for in a format
   Both are sequences of [id, v]; two tags have the same content when every id has the
   same values in the same order.  On top of it: split / merge / conversion laws. *)
EXTENDS Ratings, Json, IOUtils

KeyMap == JsonDeserialize(IOEnv.SPEC_DIR \o "/keymap.json")
V(id, v) == [id |-> id, v |-> v]
Flat(ss) == FlattenSeq(ss)
Sub(s, n) == SubSeq(s, n, Len(s))
Pre(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE SplitAt(_, _)
SplitAt(v, sep) ==
    LET n == Len(sep) cut == {i \in 1..(Len(v) - n + 1) : SubSeq(v, i, i + n - 1) = sep} IN
    IF cut = {} THEN <<v>>
    ELSE LET i == CHOOSE i \in cut : \A j \in cut : i <= j IN <<SubSeq(v, 1, i - 1)>> \o SplitAt(SubSeq(v, i + n, Len(v)), sep)
Split0(v) == SplitAt(v, "<0>")
RECURSIVE JoinBy(_, _)
JoinBy(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinBy(Tail(s), sep)
Each(id, vs) == [i \in DOMAIN vs |-> V(id, vs[i])]
RECURSIVE Trim(_)
Trim(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) = " " THEN Trim(SubSeq(s, 2, Len(s)))
           ELSE IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = " " THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* ----------------------------- format keys ----------------------------- *)
TIPL == [Producer |-> "producer", Arranger |-> "arranger", Engineer |-> "engineer", MixDj |-> "DJ-mix", MixEngineer |-> "mix"]
V1Id == [TrackTitle |-> "title", TrackArtist |-> "artist", AlbumTitle |-> "album", Comment |-> "comment",
         TrackNumber |-> "track", Genre |-> "genre", Year |-> "year", RecordingDate |-> "year"]
MBOWNER == "http://musicbrainz.org"
FourId(fk) == IF SubSeq(fk, 1, 1) \in PrintC THEN fk ELSE "@" \o SubSeq(fk, Len(fk) - 2, Len(fk))
\* the content id of a generic key in a format ("" if the format has none)
IdOf(ty, k) ==
    CASE ty = "Id3v1" -> IF k \in DOMAIN V1Id THEN V1Id[k] ELSE ""
      [] ty = "Id3v2" /\ k \in DOMAIN TIPL -> "TIPL:" \o TIPL[k]
      [] ty = "Id3v2" /\ k = "MusicBrainzRecordingId" -> "UFID:" \o MBOWNER
      [] k \notin DOMAIN KeyMap[ty] -> ""
      [] ty = "Id3v2" -> LET fk == KeyMap[ty][k] IN IF Len(fk) # 4 \/ fk = "WORK" THEN "TXXX:" \o Lower(fk) ELSE fk
      [] ty = "Mp4Ilst" -> FourId(KeyMap[ty][k])
      [] ty = "AiffText" -> KeyMap[ty][k]
      [] OTHER -> Lower(KeyMap[ty][k])
KeysOf(ty) == IF ty = "Id3v1" THEN DOMAIN V1Id
              ELSE DOMAIN KeyMap[ty] \cup IF ty = "Id3v2" THEN DOMAIN TIPL \cup {"MusicBrainzRecordingId"} ELSE {}

(* ------------------------------ pairs ------------------------------ *)
PairKeys == [Id3v2 |-> <<<<"TRCK", "TrackNumber", "TrackTotal">>, <<"TPOS", "DiscNumber", "DiscTotal">>, <<"MVIN", "MovementNumber", "MovementTotal">>>>,
             Ape |-> <<<<"track", "TrackNumber", "TrackTotal">>, <<"disc", "DiscNumber", "DiscTotal">>>>,
             Mp4Ilst |-> <<<<"trkn", "TrackNumber", "TrackTotal">>, <<"disk", "DiscNumber", "DiscTotal">>>>]
Pairs(ty) == IF ty \in DOMAIN PairKeys THEN PairKeys[ty] ELSE <<>>
PairIds(ty) == {Pairs(ty)[i][1] : i \in DOMAIN Pairs(ty)}
InPair(ty, k) == \E i \in DOMAIN Pairs(ty) : k \in {Pairs(ty)[i][2], Pairs(ty)[i][3]}
NumText(s) == LET n == U32Text(s) IN IF n = <<>> THEN s ELSE n[1]
U16Text(s) == LET n == U32Text(s) IN IF n # <<>> /\ FitsDec(n[1], "65535") THEN n ELSE <<>>
Pair(id, n, t) == IF n = <<>> /\ t = <<>> THEN <<>>
                  ELSE <<V(id, (IF n = <<>> THEN "0" ELSE n[1]) \o (IF t = <<>> THEN "" ELSE "/" \o t[1]))>>
RECURSIVE DropEmpty(_)
DropEmpty(s) == IF Len(s) > 1 /\ s[Len(s)] = "" THEN DropEmpty(SubSeq(s, 1, Len(s) - 1)) ELSE s
PairNorm(s0) ==
    LET ps == SplitAt(JoinBy(Split0(s0), "/"), "/") s == [i \in DOMAIN ps |-> NumText(Trim(ps[i]))] IN
    JoinBy(DropEmpty([s EXCEPT ![1] = IF @ = "" THEN "0" ELSE @]), "/")
PairText(id, s0) == <<V(id, PairNorm(s0))>>      \* a textual pair

(* ---------------------- the content of a format tag ---------------------- *)
Flag(s) == IF s \in {"1", "true"} THEN "1" ELSE IF s \in {"0", "false"} THEN "0" ELSE s
FlagIds == [Id3v2 |-> {"TCMP"}, Ape |-> {"compilation"}, VorbisComments |-> {"compilation"}, Mp4Ilst |-> {}]
Advis(s) == CASE s \in {"1", "4"} -> "1" [] OTHER -> s
GENRE == [n \in {"0", "1", "2", "8", "9", "17", "79", "127", "191"} |->
    CASE n = "0" -> "Blues" [] n = "1" -> "Classic rock" [] n = "127" -> "Drum & Bass" [] n = "2" -> "Country" [] n = "8" -> "Jazz" [] n = "9" -> "Metal" [] n = "17" -> "Rock" [] n = "79" -> "Hard Rock" [] n = "191" -> "Psybient"]
GenreName(v) == IF v \in DOMAIN GENRE THEN GENRE[v] ELSE v
GenreNum(v) == LET c == {n \in DOMAIN GENRE : GENRE[n] = v} IN IF c = {} THEN v ELSE CHOOSE n \in c : TRUE
NormV(ty, id, v) ==
    IF ty \in DOMAIN FlagIds /\ id \in FlagIds[ty] THEN Flag(v)
    ELSE IF ty = "Id3v2" /\ id = "TXXX:itunesadvisory" THEN Advis(v)
    ELSE IF ty = "Id3v2" /\ id = "TCON" THEN GenreName(v)
    ELSE v
\* several names are read as one key
Alias == [Ape |-> ("albumartist" :> "album artist" @@ "album artists" :> "albumartists"),
          Id3v2 |-> ("TXXX:albumartist" :> "TPE2" @@ "TXXX:album artist" :> "TPE2" @@ "TXXX:album artists" :> "TXXX:albumartists"),
          RiffInfo |-> ("itrk" :> "iprt"),
          VorbisComments |-> ("album artist" :> "albumartist" @@ "album artists" :> "albumartists" @@ "writer" :> "author" @@ "organization" :> "label"
              @@ "mixartist" :> "remixer" @@ "totaldiscs" :> "disctotal" @@ "totaltracks" :> "tracktotal" @@ "originalyear" :> "originaldate"
              @@ "encoded-by" :> "encodedby" @@ "encoded_by" :> "encodedby" @@ "encodersettings" :> "encoding" @@ "key" :> "initialkey")]
AliasOf(ty, id) == IF ty \in DOMAIN Alias /\ id \in DOMAIN Alias[ty] THEN Alias[ty][id] ELSE id
Norm(ty, s0) == LET s == [i \in DOMAIN s0 |-> V(AliasOf(ty, s0[i].id), s0[i].v)] IN [i \in DOMAIN s |-> V(s[i].id, NormV(ty, s[i].id, s[i].v))]
PicV(f) == JoinBy(f, "|")
L2(x) ==
    LET f == x.f IN
    CASE x.k = "text" /\ x.id \in PairIds("Id3v2") -> PairText(x.id, f[2])
      [] x.k = "text" -> Each(x.id, Split0(f[2]))
      [] x.k = "ts" -> <<V(x.id, f[2])>>
      [] x.k = "txxx" -> Each("TXXX:" \o Lower(f[2]), Split0(f[3]))
      [] x.k = "url" -> <<V(x.id, f[1])>>
      [] x.k \in {"comm", "uslt"} -> Each(x.id \o "|" \o f[2] \o "|" \o f[3], Split0(f[4]))
      [] x.k = "popm" -> <<V("POPM|" \o f[1], ToString(Stars(f[1], "Id3v2", StrNat(f[2]))) \o "|" \o f[3])>>
      [] x.k = "kv" -> [i \in 1..((Len(f) - 1) \div 2) |-> V(x.id \o ":" \o f[2 * i], f[2 * i + 1])]
      [] x.k = "ufid" -> <<V("UFID:" \o f[1], f[2])>>
      [] x.k = "apic" -> <<V("PIC", PicV(Sub(f, 2)))>>
      [] OTHER -> <<V(x.id, x.k \o "|" \o PicV(f) \o "|" \o x.fl)>>
IlstOne(id, kind, v) ==
    CASE kind \in {"u8", "u16"} -> <<V(id, v)>>
      [] kind = "bool" -> <<V(id, IF v = "true" THEN "1" ELSE "0")>>
      [] Pre(kind, "pic") -> <<V("PIC", kind \o "|" \o v)>>
      [] kind = "si" /\ id = "rtng" -> <<V(id, Advis(v))>>
      [] kind = "pair" -> IF v = "0/0" THEN <<>> ELSE <<V(id, v)>>
      [] OTHER -> <<V(id, kind \o "|" \o v)>>
LIlst(x) == Flat([i \in 1..(Len(x.f) \div 2) |-> IlstOne(x.id, x.f[2 * i - 1], x.f[2 * i])])
LApe(x) ==
    LET id == Lower(x.id) IN
    IF x.k = "B" THEN <<V(id, "B|" \o x.f[1])>>
    ELSE IF x.k = "T" /\ id \in PairIds("Ape") THEN PairText(id, x.f[1])
    ELSE IF x.k = "T" /\ id = "movement" THEN
        LET p == SplitAt(x.f[1], "/") IN <<V(id, p[1])>> \o (IF Len(p) = 1 THEN <<>> ELSE <<V("movementtotal", JoinBy(Sub(p, 2), "/"))>>)
    ELSE Each(id, Split0(x.f[1]))
LVc(x) ==
    IF x.k = "pic" THEN <<V("PIC", PicV(SubSeq(x.f, 1, 4)))>>
    ELSE IF x.id = "RATING" \/ Pre(x.id, "RATING:") THEN
        LET e == IF x.id = "RATING" THEN "" ELSE Sub(x.id, 8) IN <<V("rating|" \o e, ToString(Stars(e, "VorbisComments", StrNat(x.f[1]))))>>
    ELSE <<V(Lower(x.id), x.f[1])>>
LAiff(x) == IF x.id = "COMT" THEN <<V("COMM", x.f[3])>> ELSE IF x.id = "ANNO" THEN <<V("COMM", x.f[1])>> ELSE <<V(x.id, x.f[1])>>
LItem(ty, x) ==
    CASE ty = "Id3v2" -> L2(x)
      [] ty = "Ape" -> LApe(x)
      [] ty = "VorbisComments" -> LVc(x)
      [] ty = "Mp4Ilst" -> LIlst(x)
      [] ty = "RiffInfo" -> <<V(Lower(x.id), x.f[1])>>
      [] ty = "AiffText" -> LAiff(x)
      [] ty = "Id3v1" -> <<V(x.id, x.f[1])>>
\* annotations come before comments in the text chunks of an AIFF file
Ordered(ty, items) == IF ty = "AiffText" THEN Filter(items, LAMBDA x : x.id # "COMT") \o Filter(items, LAMBDA x : x.id = "COMT") ELSE items
Logical(ty, its) == LET items == Ordered(ty, its) IN Norm(ty, Flat([i \in DOMAIN items |-> LItem(ty, items[i])]))

(* -------------------- the content generic items stand for -------------------- *)
TextOnly == {"Mp4Ilst"}                     \* values of other kinds are not expressible
Allowed(ty, i) == IF i.t = "B" THEN ty = "Ape" ELSE IF i.t = "L" THEN ty \notin TextOnly ELSE TRUE
FlagKeys == {"FlagCompilation", "FlagPodcast"}
Popm(i) == SplitAt(i.v, "|")
PopmOk(i) == LET p == Popm(i) IN Len(p) = 3 /\ p[2] \in {"1", "2", "3", "4", "5"} /\ IsDigits(p[3])
OutOf(ty, i) ==
    LET id == IdOf(ty, i.k) IN
    IF id = "" \/ ~Allowed(ty, i) \/ InPair(ty, i.k) THEN <<>>
    ELSE CASE ty = "Id3v1" -> <<>>          \* (see V1Exp)
           [] i.k \in FlagKeys /\ ty \in {"Id3v2", "Ape", "VorbisComments", "Mp4Ilst"} /\ ~(ty = "VorbisComments" /\ i.k = "FlagPodcast") ->
                IF i.t = "T" /\ Flag(i.v) \in {"0", "1"} THEN <<V(id, Flag(i.v))>> ELSE IF ty = "VorbisComments" /\ i.t = "L" /\ Flag(i.v) \in {"0", "1"} THEN <<V(id, Flag(i.v))>> ELSE <<>>
           [] i.k = "ParentalAdvisory" -> IF i.t = "T" /\ i.v \in {"0", "1", "2", "4"} THEN <<V(id, Advis(i.v))>> ELSE <<>>
           [] i.k = "Popularimeter" /\ ty = "Id3v2" -> IF PopmOk(i) THEN <<V("POPM|" \o Popm(i)[1], Popm(i)[2] \o "|" \o Popm(i)[3])>> ELSE <<>>
           [] i.k = "Popularimeter" /\ ty = "VorbisComments" -> IF PopmOk(i) THEN <<V("rating|" \o Popm(i)[1], Popm(i)[2])>> ELSE <<>>
           [] i.k \in {"Comment", "UnsyncLyrics"} /\ ty = "Id3v2" -> <<V(id \o "|" \o i.l \o "|" \o i.d, i.v)>>
           [] ty = "VorbisComments" /\ i.k = "EncoderSoftware" -> <<>>     \* is the vendor
           [] ty = "Ape" /\ i.t = "B" -> <<V(id, "B|" \o i.v)>>
           [] OTHER -> <<V(id, i.v)>>
LastText(items, k, P(_)) ==
    LET c == Filter(items, LAMBDA i : i.k = k /\ i.t = "T" /\ P(i.v)) IN IF c = <<>> THEN <<>> ELSE <<c[Len(c)].v>>
Half(ty, items, k) ==
    LET any(v) == TRUE  u16(v) == U16Text(v) # <<>>  full(v) == Trim(v) # "" IN
    LET r == IF ty = "Mp4Ilst" THEN LastText(items, k, u16) ELSE IF ty = "Ape" THEN LastText(items, k, full) ELSE LastText(items, k, any) IN
    IF r = <<>> THEN r ELSE IF ty = "Ape" THEN <<NumText(Trim(r[1]))>> ELSE <<NumText(r[1])>>
PairOut(ty, items, p) ==
    LET n == Half(ty, items, p[2]) t == Half(ty, items, p[3]) IN
    IF ty # "Mp4Ilst" THEN LET r == Pair(p[1], n, t) IN IF r = <<>> THEN r ELSE PairText(p[1], r[1].v)
    ELSE LET a == (IF n = <<>> THEN "0" ELSE n[1]) \o "/" \o (IF t = <<>> THEN "0" ELSE t[1]) IN IF a = "0/0" THEN <<>> ELSE <<V(p[1], a)>>
\* ID3v1 and the AIFF text chunks have a single place for most keys
FirstText(items, k) == LET c == Filter(items, LAMBDA i : i.k = k /\ i.t \in {"T", "L"}) IN IF c = <<>> THEN <<>> ELSE <<c[1].v>>
V1Field(items, k) == LET v == FirstText(items, k) IN IF v = <<>> THEN <<>> ELSE <<V(V1Id[k], v[1])>>
V1Num(items, k, max) ==
    LET v == FirstText(items, k) n == IF v = <<>> THEN <<>> ELSE U32Text(v[1]) IN
    IF n # <<>> /\ FitsDec(n[1], max) THEN n ELSE <<>>
V1Year(items) ==
    LET y == V1Num(items, "Year", "65535")
        d == FirstText(items, "RecordingDate") IN
    IF y # <<>> THEN <<V("year", y[1])>>
    ELSE IF d # <<>> /\ Len(d[1]) >= 4 /\ IsDigits(SubSeq(d[1], 1, 4)) THEN <<V("year", StripZeros(SubSeq(d[1], 1, 4)))>> ELSE <<>>
V1Exp(items) ==
    LET g == FirstText(items, "Genre") gn == IF g = <<>> THEN "" ELSE GenreNum(g[1]) t == V1Num(items, "TrackNumber", "255") IN
    V1Field(items, "TrackTitle") \o V1Field(items, "TrackArtist") \o V1Field(items, "AlbumTitle") \o V1Year(items) \o V1Field(items, "Comment")
      \o (IF t = <<>> THEN <<>> ELSE <<V("track", t[1])>>)
      \o (IF IsDigits(gn) /\ FitsDec(gn, "191") THEN <<V("genre", gn)>> ELSE <<>>)
OneOnly(ty) == IF ty = "AiffText" THEN {"NAME", "AUTH", "(c) "} ELSE {}
KeepFirst(s, ids) == LET ix == Filter([i \in DOMAIN s |-> i], LAMBDA i : ~(s[i].id \in ids /\ \E j \in 1..(i - 1) : s[j].id = s[i].id)) IN [i \in DOMAIN ix |-> s[ix[i]]]
KeepLast(s, ids) == LET ix == Filter([i \in DOMAIN s |-> i], LAMBDA i : ~(s[i].id \in ids /\ \E j \in (i + 1)..Len(s) : s[j].id = s[i].id)) IN [i \in DOMAIN ix |-> s[ix[i]]]
Exp(ty, items) ==
    IF ty = "Id3v1" THEN V1Exp(items)
    ELSE KeepLast(KeepFirst(Norm(ty, Flat([i \in DOMAIN items |-> OutOf(ty, items[i])])), OneOnly(ty)), IF ty = "Ape" THEN {"compilation"} ELSE {})
         \o Flat([n \in DOMAIN Pairs(ty) |-> PairOut(ty, items, Pairs(ty)[n])])
PicTypes == {"Id3v2", "VorbisComments", "Mp4Ilst"}
GPic(ty, p) ==
    CASE ty \in {"Id3v2", "VorbisComments"} -> <<V("PIC", PicV(<<ToString(p.pt), p.m, p.d, p.data>>))>>
      [] ty = "Mp4Ilst" -> <<V("PIC", (IF p.m = "-" THEN "pic" ELSE "pic:" \o p.m) \o "|" \o p.data)>>
      [] OTHER -> <<>>
ExpPics(ty, pics) == Flat([i \in DOMAIN pics |-> GPic(ty, pics[i])])
ExpTag(ty, g) == Exp(ty, g.items) \o ExpPics(ty, g.pics)

(* ------------------------------ comparing ------------------------------ *)
Ids(s) == {s[i].id : i \in DOMAIN s}
ValsOf(s, id) == LET m == Filter(s, LAMBDA e : e.id = id) IN [i \in DOMAIN m |-> m[i].v]
\* ID3v2 frames of a kind are written once; keys without a documented list keep one of the values
MultiKeys == {"TrackArtist", "AlbumArtist", "TrackTitle", "AlbumTitle", "SetSubtitle", "TrackSubtitle", "OriginalAlbumTitle", "OriginalArtist",
              "OriginalLyricist", "ContentGroup", "AppleId3v2ContentGroup", "Genre", "Mood", "Composer", "Conductor", "Writer", "Lyricist",
              "InternetRadioStationName", "InternetRadioStationOwner", "Remixer", "Movement", "FileOwner", "CopyrightMessage", "Language", "Publisher",
              "TrackArtists", "AlbumArtists", "Director", "AcoustId", "AcoustIdFingerprint", "CatalogNumber", "MusicBrainzArtistId",
              "MusicBrainzReleaseArtistId", "MusicBrainzWorkId", "MusicBrainzReleaseType", "ReleaseCountry", "Work", "Barcode"}
MultiIds == {IdOf("Id3v2", k) : k \in MultiKeys}
Keeps(ty, id) == ty # "Id3v2" \/ id \in MultiIds \/ id = "PIC" \/ Pre(id, "COMM|") \/ Pre(id, "USLT|") \/ Pre(id, "TIPL:") \/ id \in PairIds("Id3v2")
SameBy(ty, got, want) ==
    /\ Ids(got) = Ids(want)
    /\ \A id \in Ids(want) :
        LET g == ValsOf(got, id) w == ValsOf(want, id) IN
        g = w \/ (~Keeps(ty, id) /\ Len(g) = 1 /\ Len(w) > 1 /\ g[1] \in ToSet(w))
Same(got, want) == Ids(got) = Ids(want) /\ \A id \in Ids(want) : ValsOf(got, id) = ValsOf(want, id)

(* -------------------- splitting and merging, on contents -------------------- *)
\* the generic key read from a content id (the format decides which of several)
HasKey(ty, id) == \E k \in KeysOf(ty) : IdOf(ty, k) = id
AlwaysSplit(ty, id) == HasKey(ty, id) \/ id = "PIC"
=============================================================================
