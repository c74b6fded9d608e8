-------------------------------- MODULE Pics --------------------------------
(* Pictures: recognition of images from their bytes, the FLAC and APE encodings
   of a picture, and what each tag type stores of it.
   A picture: [pt, m, d, data]; "-" stands for absent. 32 bit numbers are <<hi16, lo16>>. *)
EXTENDS Common
At(b, i) == IF i >= 1 /\ i <= Len(b) THEN b[i] ELSE -1
Is(b, at, s) == Len(b) >= at + Len(s) - 1 /\ SubSeq(b, at, at + Len(s) - 1) = s
PNGSIG == <<137, 80, 78, 71, 13, 10, 26, 10>>
IHDR == <<73, 72, 68, 82>>
PLTE == <<80, 76, 84, 69>>
(* ---- kind of image, by its first bytes ---- *)
Sniff(b) ==
    IF Len(b) < 8 THEN ""
    ELSE IF Is(b, 1, PNGSIG) THEN "image/png"
    ELSE IF Is(b, 1, <<255, 216>>) THEN "image/jpeg"
    ELSE IF Is(b, 1, <<71, 73, 70, 56>>) /\ b[5] \in {55, 57} /\ b[6] = 97 THEN "image/gif"
    ELSE IF Is(b, 1, <<66, 77>>) THEN "image/bmp"
    ELSE IF Is(b, 1, <<73, 73, 42, 0>>) \/ Is(b, 1, <<77, 77, 0, 42>>) THEN "image/tiff" ELSE ""
(* ---- dimensions ---- *)
W16(b, i) == b[i] * 256 + b[i + 1]
W32(b, i) == <<W16(b, i), W16(b, i + 2)>>
Z32 == <<0, 0>>
Info(w, h, d, n) == [w |-> w, h |-> h, depth |-> d, colors |-> n]
NoInfo == Info(Z32, Z32, 0, 0)
Samples(ct) == CASE ct = 2 -> 3 [] ct = 4 -> 2 [] ct = 6 -> 4 [] OTHER -> 1
Chunk(b, i) == Len(b) >= i + 7 /\ W32(b, i)[1] = 0
RECURSIVE PngColors(_, _)
PngColors(b, i) ==
    IF ~Chunk(b, i) THEN 0
    ELSE IF Is(b, i + 4, PLTE) THEN W32(b, i)[2] \div 3
    ELSE PngColors(b, i + W32(b, i)[2] + 12)
(* chunks no longer than the file up to the palette, and a palette of 1 to 256 colours *)
RECURSIVE PngPlain(_, _)
PngPlain(b, i) ==
    IF Len(b) < i + 7 THEN TRUE
    ELSE IF ~Chunk(b, i) THEN FALSE
    ELSE IF Is(b, i + 4, PLTE) THEN W32(b, i)[2] % 3 = 0 /\ W32(b, i)[2] <= 768
    ELSE PngPlain(b, i + W32(b, i)[2] + 12)
PngOk(b) == Is(b, 1, PNGSIG) /\ Is(b, 9, <<0, 0, 0, 13>>) /\ Is(b, 13, IHDR) /\ Len(b) >= 33
            /\ <<b[26], b[25]>> \in ({0} \X {1, 2, 4, 8, 16}) \cup ({2, 4, 6} \X {8, 16}) \cup ({3} \X {1, 2, 4, 8})
            /\ (b[26] = 3 => PngPlain(b, 34))
PngInfo(b) == Info(W32(b, 17), W32(b, 21), b[25] * Samples(b[26]), IF b[26] = 3 THEN PngColors(b, 34) ELSE 0)
(* the segments of a JPEG up to the frame header *)
Sofs == {192, 193, 194, 195, 197, 198, 199, 201, 202, 203, 205, 206, 207}
RECURSIVE Sof(_, _)
Sof(b, i) ==
    IF Len(b) < i + 3 \/ b[i] # 255 THEN 0
    ELSE IF b[i + 1] = 255 THEN Sof(b, i + 1)     \* fill bytes in front of a marker
    ELSE IF b[i + 1] = 218 THEN 0
    ELSE IF b[i + 1] \in Sofs THEN (IF Len(b) >= i + 9 THEN i ELSE 0)
    ELSE IF W16(b, i + 2) < 2 THEN 0 ELSE Sof(b, i + 2 + W16(b, i + 2))
JpegOk(b) == Is(b, 1, <<255, 216, 255>>) /\ Sof(b, 3) > 0
JpegInfo(b) == LET i == Sof(b, 3) IN Info(<<0, W16(b, i + 7)>>, <<0, W16(b, i + 5)>>, b[i + 4] * b[i + 9], 0)
JpegBaseline(b) == b[Sof(b, 3) + 1] \in {192, 194}
ImageInfo(b) == IF PngOk(b) THEN PngInfo(b) ELSE IF JpegOk(b) THEN JpegInfo(b) ELSE NoInfo
(* e: [bytes, png, jpeg, pic, vc, sniff, kept]: <<"-">> for an error, otherwise <<"+", info>> *)
InfoBad(e) ==
    LET b == e.bytes
        right(x, i) == x[1] = "+" /\ x[2] = i IN
    (IF PngOk(b) /\ ~right(e.png, PngInfo(b)) THEN <<"png">> ELSE <<>>)
    \o (IF ~Is(b, 1, PNGSIG) /\ e.png[1] # "-" THEN <<"png:accepted">> ELSE <<>>)
    \o (IF JpegOk(b) /\ JpegBaseline(b) /\ ~right(e.jpeg, JpegInfo(b)) THEN <<"jpeg">> ELSE <<>>)
    \o (IF ~Is(b, 1, <<255, 216, 255>>) /\ e.jpeg[1] # "-" THEN <<"jpeg:accepted">> ELSE <<>>)
    \o (IF Len(b) < 8 /\ e.pic[1] # "-" THEN <<"picture:short">> ELSE <<>>)
    \o (IF (PngOk(b) \/ (JpegOk(b) /\ JpegBaseline(b))) /\ (~right(e.pic, ImageInfo(b)) \/ ~right(e.vc, ImageInfo(b))) THEN <<"picture">> ELSE <<>>)
    \o (IF Len(b) >= 8 /\ ~Is(b, 1, <<137, 80, 78, 71>>) /\ ~Is(b, 1, <<255, 216, 255>>) /\ ~right(e.pic, NoInfo) THEN <<"picture:other">> ELSE <<>>)
    \o (IF e.sniff # Sniff(b) THEN <<"kind">> ELSE <<>>)
    \o (IF Sniff(b) # "" /\ ~e.kept THEN <<"bytes">> ELSE <<>>)
    \o (IF "panic" \in {e.png[1], e.jpeg[1], e.pic[1], e.vc[1]} THEN <<"panic">> ELSE <<>>)

(* ---- the FLAC encoding: texts and data as bytes ---- *)
Be32(n) == <<0, n \div 65536, (n \div 256) % 256, n % 256>>
U32(x) == <<x[1] \div 256, x[1] % 256, x[2] \div 256, x[2] % 256>>
FlacBytes(p, i) ==
    Be32(p.pt) \o Be32(Len(p.m)) \o p.m \o Be32(Len(p.d)) \o p.d \o U32(i.w) \o U32(i.h) \o U32(i.depth) \o U32(i.colors) \o Be32(Len(p.data)) \o p.data
ALPHA == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
A64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 97 + n - 26 ELSE IF n < 62 THEN 48 + n - 52 ELSE IF n = 62 THEN 43 ELSE 47
RECURSIVE Base64(_)
Base64(b) ==
    IF b = <<>> THEN <<>>
    ELSE LET x == b[1]
             y == IF Len(b) > 1 THEN b[2] ELSE 0
             z == IF Len(b) > 2 THEN b[3] ELSE 0 IN
         <<A64(x \div 4), A64((x % 4) * 16 + (y \div 16)), IF Len(b) > 1 THEN A64((y % 16) * 4 + (z \div 64)) ELSE 61, IF Len(b) > 2 THEN A64(z % 64) ELSE 61>>
         \o Base64(SubSeq(b, 4, Len(b)))
(* e: [p, info, raw, enc, back, encback, ape, apeback]; p with bytes; back: <<"+", picture, info>> *)
FlacBad(e) ==
    LET want == FlacBytes(e.p, e.info)
        got(x) == x[1] = "+" /\ x[2] = e.p /\ x[3] = e.info IN
    (IF e.raw # want THEN <<"flac">> ELSE <<>>)
    \o (IF e.enc # Base64(want) THEN <<"base64">> ELSE <<>>)
    \o (IF \E i \in DOMAIN e.back : ~got(e.back[i]) THEN <<"flac:back">> ELSE <<>>)
    \o (IF e.ape # e.p.d \o <<0>> \o e.p.data THEN <<"ape">> ELSE <<>>)
    \o (IF Sniff(e.p.data) # "" /\ e.key
        THEN (IF e.apeback[1] = "+" /\ e.apeback[2] = [e.p EXCEPT !.m = e.sniffed] THEN <<>> ELSE <<"ape:back">>) ELSE <<>>)

(* ---- what a tag type stores of a picture ---- *)
ApeTypes == 0..20
MP4MIME == {"-", "image/png", "image/jpeg", "image/gif", "image/bmp"}
Stored(ty, p) ==
    LET d == IF p.d = "" THEN "-" ELSE p.d
        m == IF p.m = "" THEN "-" ELSE p.m IN
    CASE ty \in {"Id3v2", "VorbisComments"} -> [p EXCEPT !.d = d, !.m = m]
      [] ty = "Ape" -> [p EXCEPT !.d = d, !.m = p.sn]
      [] ty = "Mp4Ilst" -> [p EXCEPT !.d = "-", !.pt = 0, !.m = m]
      [] OTHER -> p
Kept(ty, p) == CASE ty = "Ape" -> p.pt \in ApeTypes /\ p.sn # "" [] OTHER -> TRUE
UniqueKind(ty, pt) == CASE ty = "Ape" -> TRUE [] ty = "Mp4Ilst" -> FALSE [] OTHER -> pt \in {1, 2}
NoSn(p) == [pt |-> p.pt, m |-> p.m, d |-> p.d, data |-> p.data]
(* e: [ty, pics, res, back]; the pictures read back *)
TripBad(e) ==
    LET in == Map(Filter(e.pics, LAMBDA p : Kept(e.ty, p)), LAMBDA p : [k |-> p.pt, v |-> NoSn(Stored(e.ty, p))])
        many == Map(Filter(in, LAMBDA x : ~UniqueKind(e.ty, x.k)), LAMBDA x : x.v)
        one == {in[i] : i \in {j \in DOMAIN in : UniqueKind(e.ty, in[j].k)}}
        kinds == {x.k : x \in one}
        (* of several pictures of one APE key one is kept; it is no picture when it is no image *)
        maybe == IF e.ty = "Ape" THEN {e.pics[i].pt : i \in {j \in DOMAIN e.pics : e.pics[j].sn = ""}} ELSE {}
        bm == Filter(e.back, LAMBDA p : ~UniqueKind(e.ty, p.pt))
        bo == Filter(e.back, LAMBDA p : UniqueKind(e.ty, p.pt)) IN
    (* MP4 has no code for other kinds of image: storing them would lose what they are *)
    IF e.ty = "Mp4Ilst" /\ \E i \in DOMAIN e.pics : e.pics[i].m \notin MP4MIME
    THEN (IF e.res = "ok" THEN <<"accepted">> ELSE IF e.panic THEN <<"panic">> ELSE <<>>)
    ELSE IF e.res # "ok" THEN <<"refused">>
    ELSE (IF bm # many THEN <<"pictures">> ELSE <<>>)
         \o (IF ~({bo[i].pt : i \in DOMAIN bo} \subseteq kinds) \/ ~((kinds \ maybe) \subseteq {bo[i].pt : i \in DOMAIN bo})
             \/ Len(bo) # Cardinality({bo[i].pt : i \in DOMAIN bo}) THEN <<"unique">> ELSE <<>>)
         \o (IF \E i \in DOMAIN bo : [k |-> bo[i].pt, v |-> bo[i]] \notin one THEN <<"unique:content">> ELSE <<>>)
PicsBad(e) == CASE e.op.a = "info" -> InfoBad(e) [] e.op.a = "flac" -> FlacBad(e) [] e.op.a = "trip" -> TripBad(e)
=============================================================================
