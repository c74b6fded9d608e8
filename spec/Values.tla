------------------------------- MODULE Values -------------------------------
(* The value formats of the library: what text or bytes stand for a value, which
   are accepted, and what is printed. All bytes are numbers, all text is given as
   code points. *)
EXTENDS Common, Ratings, Genres, Bitwise

Digit(c) == c \in 48..57
Pow(b, e) == b^e
(* ---------------------------------------------------------------- timestamps *)
MINUS == 45
DOT == 46
COLON == 58
TEE == 84
SPACE == 32
SEPS == {MINUS, DOT, COLON, TEE}
WS == {9, 10, 12, 13, 32}
RECURSIVE SkipWs(_)
SkipWs(b) == IF b # <<>> /\ b[1] \in WS THEN SkipWs(Tail(b)) ELSE b
\* what may come before the k-th field (2 month .. 6 second); the first is the standard's
SepOf(k) == CASE k \in {2, 3} -> <<MINUS, DOT>> [] k = 4 -> <<TEE>> [] OTHER -> <<COLON>>
RECURSIVE NumOf(_)
NumOf(b) == IF b = <<>> THEN 0
            ELSE IF b[Len(b)] = SPACE THEN NumOf(Keep(b, 1, Len(b) - 1))
            ELSE NumOf(Keep(b, 1, Len(b) - 1)) * 10 + (b[Len(b)] - 48)
Err == [r |-> "err", n |-> 0, rest |-> <<>>]
Stop == [r |-> "stop", n |-> 0, rest |-> <<>>]
\* the parser's step: one field of `size` digits, after a separator when one is due
Field(b, k, size, sepd, strict) ==
    IF b = <<>> THEN Stop
    ELSE IF sepd /\ ~ b[1] \in Range(SepOf(k)) THEN IF strict THEN Err ELSE Stop
    ELSE IF sepd /\ strict /\ b[1] # SepOf(k)[1] THEN Err
    ELSE LET c == IF sepd THEN Tail(b) ELSE b IN
         IF Len(c) < size THEN IF strict THEN Err ELSE Stop
         ELSE LET w == Keep(c, 1, size)
                  \* how many leading characters are digits or (leniently) spaces
                  n == CHOOSE n \in 0..size : (\A i \in 1..n : Digit(w[i]) \/ (~strict /\ w[i] = SPACE))
                                              /\ (n = size \/ ~(Digit(w[n + 1]) \/ (~strict /\ w[n + 1] = SPACE))) IN
              IF n < size /\ ~(sepd /\ ~strict /\ w[n + 1] \in SEPS) THEN Err
              ELSE IF \A i \in 1..n : w[i] = SPACE THEN Stop
              ELSE [r |-> "ok", n |-> NumOf(Keep(w, 1, n)), rest |-> Keep(c, n + 1, Len(c))]
NoTs == [r |-> "none", f |-> <<>>]
RECURSIVE Fields(_, _, _, _)
Fields(b, f, any, strict) ==
    IF Len(f) = 6 THEN [r |-> "some", f |-> f]
    ELSE LET k == Len(f) + 1
             x == Field(b, k, 2, any \/ k = 4, strict) IN
         IF x.r = "stop" THEN [r |-> "some", f |-> f]
         ELSE IF x.r = "err" THEN [r |-> "err", f |-> <<>>]
         ELSE Fields(x.rest, Append(f, x.n), any, strict)
ParseTs(text, mode) ==
    LET strict == mode = "strict"
        b0 == IF strict THEN text ELSE SkipWs(text)
        b == Keep(b0, 1, Min2(19, Len(b0)))
        any == \E i \in DOMAIN b : b[i] \in SEPS \ {TEE}
        y == Field(b, 1, 4, FALSE, strict) IN
    IF b = <<>> THEN IF strict THEN [r |-> "err", f |-> <<>>] ELSE NoTs
    ELSE IF y.r = "err" THEN [r |-> "err", f |-> <<>>]
    ELSE IF y.r = "stop" THEN IF strict THEN [r |-> "err", f |-> <<>>] ELSE NoTs
    ELSE Fields(y.rest, <<y.n>>, any, strict)
RECURSIVE Dec(_, _)
Dec(n, w) == IF w > 1 THEN Dec(n \div 10, w - 1) \o <<48 + (n % 10)>> ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10, 1) \o <<48 + (n % 10)>>
\* six fields, each <<>> or <<n>>; only what has a parent is printed
RECURSIVE PrintFrom(_, _)
PrintFrom(f, k) == IF k > 6 \/ f[k] = <<>> THEN <<>> ELSE <<SepOf(k)[1]>> \o Dec(f[k][1], 2) \o PrintFrom(f, k + 1)
PrintTs(f) == Dec(f[1][1], 4) \o PrintFrom(f, 2)
Six(f) == [k \in 1..6 |-> IF k <= Len(f) THEN <<f[k]>> ELSE <<>>]
MAXF == <<9999, 12, 31, 23, 59, 59>>
TsStorable(f) == \A k \in 1..6 : f[k] # <<>> => f[k][1] <= MAXF[k] /\ (k > 1 => f[k - 1] # <<>>)
TsBad(ev) ==
    LET w == ParseTs(ev.op.b, ev.op.mode) o == ev.out IN
       (IF w.r = "some" /\ (o.r # "some" \/ o.f # Six(w.f)) THEN <<"ts-value">> ELSE <<>>)
    \o (IF w.r # "some" /\ o.r = "some" THEN <<"ts-accepts">> ELSE <<>>)
    \o (IF w.r = "err" /\ ev.op.mode = "strict" /\ o.r # "err" THEN <<"ts-no-error">> ELSE <<>>)
    \o (IF o.r = "some" /\ (o.disp # PrintTs(o.f)) THEN <<"ts-print">> ELSE <<>>)
    \o (IF ev.op.mode = "best" /\ o.fs # (IF w.r = "some" THEN Six(w.f) ELSE <<>>) THEN <<"ts-fromstr">> ELSE <<>>)
TsvBad(ev) ==
    LET f == ev.op.f o == ev.out IN
       (IF o.disp # PrintTs(f) THEN <<"ts-print">> ELSE <<>>)
    \o (IF TsStorable(f) # (o.enc # <<>>) THEN <<"ts-storable">> ELSE <<>>)
    \o (IF o.enc # <<>> /\ o.enc # <<3>> \o PrintTs(f) THEN <<"ts-encoded">> ELSE <<>>)
    \o (IF o.enc # <<>> /\ o.back # f THEN <<"ts-roundtrip">> ELSE <<>>)
(* ---------------------------------------------------------- synchsafe integers *)
BitsOf(bytes) == [i \in 1..(8 * Len(bytes)) |-> (bytes[((i - 1) \div 8) + 1] \div Pow(2, 7 - ((i - 1) % 8))) % 2]
RECURSIVE BitsVal(_)
BitsVal(s) == IF s = <<>> THEN 0 ELSE BitsVal(Keep(s, 1, Len(s) - 1)) * 2 + s[Len(s)]
Zeros(n) == [i \in 1..n |-> 0]
\* the bits, right aligned in groups of seven with a zero in front of each, as `n` bytes
Groups(bits, n) == LET p == Zeros(7 * n) \o bits q == Keep(p, Len(p) - 7 * n + 1, Len(p)) IN
                   [i \in 1..n |-> BitsVal(Keep(q, 7 * (i - 1) + 1, 7 * i))]
SynchFits(bytes) == \A i \in 1..Len(bytes) : BitsOf(bytes)[i] = 0
Synch(bytes) == Groups(BitsOf(bytes), Len(bytes))
Widen(bytes) == Groups(BitsOf(bytes), 2 * Len(bytes))
Unsynch(bytes) ==
    LET n == Len(bytes)
        bits == Zeros(n) \o [i \in 1..(7 * n) |-> BitsOf(bytes)[8 * ((i - 1) \div 7) + 2 + ((i - 1) % 7)]] IN
    [i \in 1..n |-> BitsVal(Keep(bits, 8 * (i - 1) + 1, 8 * i))]
SynchBad(ev) ==
    LET b == ev.op.b o == ev.out IN
       (IF SynchFits(b) # (o.synch # <<>>) THEN <<"synch-range">> ELSE <<>>)
    \o (IF o.synch # <<>> /\ o.synch # Synch(b) THEN <<"synch">> ELSE <<>>)
    \o (IF o.widen # Widen(b) THEN <<"synch-widen">> ELSE <<>>)
    \o (IF o.unsynch # Unsynch(b) THEN <<"synch-undo">> ELSE <<>>)
(* ------------------------------------------------- unsynchronised byte streams *)
\* the encoder: a zero after every FF that is followed by a zero or a sync pattern, or ends the data
RECURSIVE Stuff(_)
Stuff(b) == IF b = <<>> THEN <<>>
            ELSE IF b[1] = 255 /\ (Len(b) = 1 \/ b[2] = 0 \/ b[2] >= 224) THEN <<255, 0>> \o Stuff(Tail(b))
            ELSE <<b[1]>> \o Stuff(Tail(b))
RECURSIVE Unstuff(_)
Unstuff(b) == IF b = <<>> THEN <<>>
              ELSE IF b[1] = 255 /\ Len(b) > 1 /\ b[2] = 0 THEN <<255>> \o Unstuff(Keep(b, 3, Len(b)))
              ELSE <<b[1]>> \o Unstuff(Tail(b))
StreamBad(ev) == IF ev.out.b # Unstuff(ev.op.b) THEN <<"unsync-stream">> ELSE <<>>
(* ----------------------------------------------------------------- text encodings *)
SURR == 55296..57343
Scalar(c) == c \in 0..1114111 /\ ~ c \in SURR
Utf8C(c) == IF c < 128 THEN <<c>>
            ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
            ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Cat(s, F(_)) == FlattenSeq(Map(s, F))
BE16(c) == Cat(Units(c), LAMBDA u : <<u \div 256, u % 256>>)
LE16(c) == Cat(Units(c), LAMBDA u : <<u % 256, u \div 256>>)
Latin1C(c) == <<IF c < 256 THEN c ELSE 63>>
\* encoding after the tag version's restrictions
EncFor(e, v23) == IF v23 /\ e \in {2, 3} THEN 1 ELSE e
Encode(t, e) == CASE e = 0 -> {Cat(t, Latin1C)}
                  [] e = 1 -> {<<255, 254>> \o Cat(t, LE16), <<254, 255>> \o Cat(t, BE16)}
                  [] e = 2 -> {Cat(t, BE16)}
                  [] OTHER -> {Cat(t, Utf8C)}
EncBad(ev) ==
    LET e == EncFor(ev.op.e, ev.op.v23) o == ev.out
        lossless == e # 0 \/ \A i \in DOMAIN ev.op.t : ev.op.t[i] < 256 IN
    IF ~lossless /\ ~ev.op.lossy THEN IF o.enc # <<>> THEN <<"enc-lossy">> ELSE <<>>
    ELSE (IF o.enc = <<>> THEN <<"enc-refused">>
          ELSE (IF o.enc[1] # e THEN <<"enc-kind">> ELSE <<>>)
            \o (IF ~ Tail(o.enc) \in Encode(ev.op.t, e) THEN <<"enc-bytes">> ELSE <<>>))
\* decoders: <<ok, code points>>
RECURSIVE DecUtf8(_)
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
Bad == [ok |-> FALSE, t |-> <<>>]
More(c, d) == IF d.ok THEN [ok |-> TRUE, t |-> <<c>> \o d.t] ELSE Bad
DecUtf8(b) ==
    IF b = <<>> THEN [ok |-> TRUE, t |-> <<>>]
    ELSE IF b[1] < 128 THEN More(b[1], DecUtf8(Tail(b)))
    ELSE IF b[1] \in 194..223 /\ Cont(b, 2) THEN More((b[1] - 192) * 64 + b[2] - 128, DecUtf8(Keep(b, 3, Len(b))))
    ELSE IF b[1] \in 224..239 /\ Cont(b, 2) /\ Cont(b, 3)
         THEN LET c == (b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128 IN
              IF c >= 2048 /\ Scalar(c) THEN More(c, DecUtf8(Keep(b, 4, Len(b)))) ELSE Bad
    ELSE IF b[1] \in 240..244 /\ Cont(b, 2) /\ Cont(b, 3) /\ Cont(b, 4)
         THEN LET c == (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128 IN
              IF c >= 65536 /\ Scalar(c) THEN More(c, DecUtf8(Keep(b, 5, Len(b)))) ELSE Bad
    ELSE Bad
RECURSIVE DecUnits(_)
DecUnits(u) ==
    IF u = <<>> THEN [ok |-> TRUE, t |-> <<>>]
    ELSE IF ~ u[1] \in SURR THEN More(u[1], DecUnits(Tail(u)))
    ELSE IF u[1] < 56320 /\ Len(u) > 1 /\ u[2] \in 56320..57343
         THEN More(65536 + (u[1] - 55296) * 1024 + u[2] - 56320, DecUnits(Keep(u, 3, Len(u))))
    ELSE Bad
Pairs(b, le) == [i \in 1..(Len(b) \div 2) |-> IF le THEN b[2 * i] * 256 + b[2 * i - 1] ELSE b[2 * i - 1] * 256 + b[2 * i]]
NoMarks(u) == Filter(u, LAMBDA x : ~ x \in {65279, 65534})
RECURSIVE TrimNul(_)
TrimNul(t) == IF t # <<>> /\ t[Len(t)] = 0 THEN TrimNul(Keep(t, 1, Len(t) - 1)) ELSE t
Decode(b, e) ==
    IF b = <<>> THEN [ok |-> TRUE, t |-> <<>>]
    ELSE CASE e = 0 -> [ok |-> TRUE, t |-> b]
           [] e = 1 -> IF Len(b) % 2 = 1 \/ ~ Keep(b, 1, 2) \in {<<255, 254>>, <<254, 255>>} THEN Bad
                       ELSE DecUnits(NoMarks(Pairs(b, b[1] = 255)))
           [] e = 2 -> DecUnits(NoMarks(Pairs(b, FALSE)))
           [] OTHER -> DecUtf8(b)
\* ID3v2.2 knows only the first two encodings
DecBad(ev) ==
    LET o == ev.out known == ev.op.e \in 0..3 /\ (ev.op.ver = 2 => ev.op.e < 2)
        d == IF known THEN Decode(ev.op.b, ev.op.e) ELSE Bad IN
    IF d.ok # o.ok THEN <<IF d.ok THEN "dec-refuses" ELSE "dec-accepts">>
    ELSE IF d.ok /\ (o.t # TrimNul(d.t) \/ o.e # ev.op.e) THEN <<"dec-text">> ELSE <<>>
(* ------------------------------------------------------------------- byte tables *)
PICS == <<"Other", "Icon", "OtherIcon", "CoverFront", "CoverBack", "Leaflet", "Media", "LeadArtist", "Artist", "Conductor", "Band", "Composer",
          "Lyricist", "RecordingLocation", "DuringRecording", "DuringPerformance", "ScreenCapture", "BrightFish", "Illustration", "BandLogo", "PublisherLogo">>
APEKEYS == <<"Other", "Png Icon", "Icon", "Front", "Back", "Leaflet", "Media", "Lead Artist", "Artist", "Conductor", "Band", "Composer", "Lyricist",
             "Recording Location", "During Recording", "During Performance", "Video Capture", "Fish", "Illustration", "Band Logotype", "Publisher Logotype">>
ApeKey(b) == "Cover Art (" \o APEKEYS[b + 1] \o ")"
At(table, b) == IF b < Len(table) THEN table[b + 1] ELSE ""
ENCS == <<"Latin1", "UTF16", "UTF16BE", "UTF8">>
TSF == <<"", "MPEG", "MS">>
SCT == <<"Other", "Lyrics", "TextTranscription", "PartName", "Events", "Chord", "Trivia", "WebpageURL", "ImageURL">>
CHN == <<"Other", "MasterVolume", "FrontRight", "FrontLeft", "BackRight", "BackLeft", "FrontCentre", "BackCentre", "Subwoofer">>
EVS == <<"Padding", "EndOfInitialSilence", "IntroStart", "MainPartStart", "OutroStart", "OutroEnd", "VerseStart", "RefrainStart", "InterludeStart", "ThemeStart",
         "VariationStart", "KeyChange", "TimeChange", "MomentaryUnwantedNoise", "SustainedNoise", "SustainedNoiseEnd", "IntroEnd", "MainPartEnd", "VerseEnd",
         "RefrainEnd", "ThemeEnd", "Profanity", "ProfanityEnd">>
HEX == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
EvName(b) == IF b < Len(EVS) THEN EVS[b + 1] ELSE IF b \in 224..239 THEN "NotPredefinedSynch" \o HEX[b - 223]
             ELSE IF b = 253 THEN "AudioEnd" ELSE IF b = 254 THEN "AudioFileEnds" ELSE "Reserved"
ADV == <<"Inoffensive", "Explicit", "Clean", "", "Explicit">>
Bit(n, k) == (n \div Pow(2, k)) % 2 = 1
TF(x) == IF x THEN 1 ELSE 0
RestrOf(b) == <<b \div 64, TF(Bit(b, 5)), (b \div 8) % 4, TF(Bit(b, 2)), b % 4>>
ByteBad(ev) ==
    LET b == ev.op.v o == ev.out IN
       (IF o.pic # (IF b < 21 THEN PICS[b + 1] ELSE "Undefined(" \o ToString(b) \o ")") \/ o.picb # b THEN <<"picture-type">> ELSE <<>>)
    \o (IF o.apek # (IF b < 21 THEN <<ApeKey(b)>> ELSE <<>>) \/ (b < 21 /\ (o.apeback # <<b, b, b>> \/ o.apelist # <<ApeKey(b)>>)) THEN <<"ape-key">> ELSE <<>>)
    \o (IF o.enc # At(ENCS, b) THEN <<"encoding">> ELSE <<>>)
    \o (IF o.tsf # At(TSF, b) THEN <<"timestamp-format">> ELSE <<>>)
    \o (IF o.sct # At(SCT, b) THEN <<"content-type">> ELSE <<>>)
    \o (IF o.chn # At(CHN, b) THEN <<"channel-type">> ELSE <<>>)
    \o (IF o.ev # EvName(b) \/ (EvName(b) # "Reserved" /\ o.evb # b) THEN <<"event-type">> ELSE <<>>)
    \o (IF o.adv # At(ADV, b) \/ (o.adv # "" /\ o.advb # (IF b = 4 THEN 1 ELSE b)) THEN <<"advisory">> ELSE <<>>)
    \o (IF o.atxt # (b % 2) \/ o.ctoc # (b % 4) THEN <<"frame-flags-byte">> ELSE <<>>)
    \o (IF o.restr # RestrOf(b) \/ o.restrb # b THEN <<"restrictions">> ELSE <<>>)
    \o (IF o.prof # (IF b < 16 THEN 1 ELSE 0) \/ o.link # (IF b < 4 THEN 1 ELSE 0) THEN <<"musepack-codes">> ELSE <<>>)
\* frame status and format bits; bit numbers from the top of the two flag bytes
F24 == <<14, 13, 12, 6, 3, 2, 1, 0>>
F23 == <<15, 14, 13, 5, 7, 6>>
WordBad(ev) ==
    LET n == ev.op.v o == ev.out
        b24 == [i \in 1..8 |-> TF(Bit(n, F24[i]))]
        b23 == [i \in 1..8 |-> IF i <= 6 THEN TF(Bit(n, F23[i])) ELSE 0]
        mask24 == BitsVal([i \in 1..16 |-> TF((16 - i) \in Range(F24) /\ Bit(n, 16 - i))])
        mask23 == BitsVal([i \in 1..16 |-> TF((16 - i) \in Range(F23) /\ Bit(n, 16 - i))]) IN
       (IF o.f24 # b24 \/ o.b24 # mask24 THEN <<"flags-24">> ELSE <<>>)
    \o (IF o.f23 # b23 \/ o.b23 # mask23 THEN <<"flags-23">> ELSE <<>>)
    \o (IF o.dt # n THEN <<"data-type">> ELSE <<>>)
TFlagsBad(ev) ==
    LET n == ev.op.v IN
    IF ev.out.b24 # (IF Bit(n, 0) THEN 128 ELSE 0) + (IF Bit(n, 1) THEN 32 ELSE 0) + (IF Bit(n, 2) THEN 16 ELSE 0)
       \/ ev.out.b23 # (IF Bit(n, 1) THEN 32 ELSE 0) THEN <<"tag-flags">> ELSE <<>>
(* ------------------------------------------------------------------------- texts *)
MIMES == [x \in {"image/jpeg", "image/jpg"} |-> <<"image/jpeg", "jpg">>]
         @@ ("image/png" :> <<"image/png", "png">>) @@ ("image/tiff" :> <<"image/tiff", "tif">>)
         @@ ("image/bmp" :> <<"image/bmp", "bmp">>) @@ ("image/gif" :> <<"image/gif", "gif">>)
DTYPE == [x \in {"image/jpeg"} |-> 13] @@ ("image/png" :> 14) @@ ("image/gif" :> 12) @@ ("image/bmp" :> 27)
MimeBad(ev) ==
    LET l == Lower(ev.op.s) o == ev.out
        w == IF l \in DOMAIN MIMES THEN MIMES[l] ELSE <<ev.op.s, "">> IN
       (IF o.s # w[1] \/ o.disp # w[1] \/ o.ext # w[2] THEN <<"mime">> ELSE <<>>)
    \o (IF o.again # o.s THEN <<"mime-roundtrip">> ELSE <<>>)
    \o (IF o.dt # (IF l \in DOMAIN MIMES /\ w[1] \in DOMAIN DTYPE THEN DTYPE[w[1]] ELSE 0) THEN <<"mime-data-type">> ELSE <<>>)
FidBad(ev) ==
    LET c == Chars(ev.op.s)
        good == Len(c) \in {3, 4} /\ \A i \in DOMAIN c : c[i] \in CharSet("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") IN
    IF ev.out.k # (IF ~good THEN "err" ELSE IF Len(c) = 3 THEN "outdated" ELSE "valid") \/ (good /\ ev.out.s # ev.op.s) THEN <<"frame-id">> ELSE <<>>
\* genres of an ID3v2 text frame: NUL separated, or the older bracketed references with an optional refinement
RECURSIVE GenresOf(_, _)
Find(s, c) == LET P == {i \in 1..Len(s) : SubSeq(s, i, i) = c} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
To(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
RECURSIVE ByNul(_)
ByNul(s) == IF s = "" THEN <<>> ELSE LET i == Find(s, "~") IN IF i = 0 THEN <<s>> ELSE <<To(s, i - 1)>> \o ByNul(From(s, i + 1))
Named(s, G) == IF s = "RX" THEN "Remix" ELSE IF s = "CR" THEN "Cover"
               ELSE IF Len(s) \in 1..3 /\ IsDigits(s) /\ StrNat(s) < Len(G) THEN G[StrNat(s) + 1] ELSE s
RECURSIVE Brackets(_)
Brackets(s) ==
    IF s = "" THEN <<>>
    ELSE LET i == Find(s, ")") IN
         IF SubSeq(s, 1, 1) # "(" \/ i = 0 THEN <<s>>
         ELSE IF Len(s) > 1 /\ SubSeq(s, 1, 2) = "((" THEN <<SubSeq(s, 2, i)>> \o Brackets(From(s, i + 1))
         ELSE <<From(To(s, i - 1), 2)>> \o Brackets(From(s, i + 1))
GenresOf(s, G) == Map(IF Find(s, "~") # 0 THEN LET n == ByNul(s) IN
                          \* the last of several may be of the older form
                          IF SubSeq(s, Len(s), Len(s)) = "~" THEN n ELSE Keep(n, 1, Len(n) - 1) \o Brackets(n[Len(n)])
                      ELSE Brackets(s), LAMBDA x : Named(x, G))
GenreBad(ev) == IF ev.out.g # GenresOf(ev.op.s, GENRES) THEN <<"genres">> ELSE <<>>
\* ratings as text: <email>|<stars 1 to 5>|<play counter>
MAXU64 == "18446744073709551615"
RatingOf(s) ==
    LET i == Find(s, "|") a == From(s, i + 1) j == Find(a, "|")
        e == To(s, i - 1) st == To(a, j - 1) c == From(a, j + 1) IN
    IF i = 0 \/ j = 0 \/ ~IsDigits(st) \/ ~IsDigits(c) THEN <<>>
    ELSE IF ~ StripZeros(st) \in {"1", "2", "3", "4", "5"} \/ ~FitsDec(StripZeros(c), MAXU64) THEN <<>>
    ELSE <<e, StripZeros(st), StripZeros(c)>>
RatingBad(ev) ==
    LET w == RatingOf(ev.op.s) o == ev.out IN
    IF w = <<>> THEN IF o.r # <<>> THEN <<"rating-accepts">> ELSE <<>>
    ELSE (IF o.r # w THEN <<"rating-value">> ELSE <<>>) \o (IF o.disp # w[1] \o "|" \o w[2] \o "|" \o w[3] THEN <<"rating-print">> ELSE <<>>)
\* file types
EXTS == [x \in {"aac"} |-> "Aac"] @@ [x \in {"aiff", "aif", "afc", "aifc"} |-> "Aiff"] @@ ("ape" :> "Ape") @@ [x \in {"mp1", "mp2", "mp3"} |-> "Mpeg"]
        @@ [x \in {"wav", "wave"} |-> "Wav"] @@ ("wv" :> "WavPack") @@ ("opus" :> "Opus") @@ ("flac" :> "Flac") @@ ("ogg" :> "Vorbis")
        @@ [x \in {"mp4", "m4a", "m4b", "m4p", "m4r", "m4v", "3gp"} |-> "Mp4"] @@ [x \in {"mpc", "mp+", "mpp"} |-> "Mpc"] @@ ("spx" :> "Speex")
ExtBad(ev) ==
    LET l == Lower(ev.op.s) w == IF l \in DOMAIN EXTS THEN EXTS[l] ELSE "" o == ev.out IN
       (IF o.t # w \/ o.path # w THEN <<"extension">> ELSE <<>>)
    \o (IF o.listed # (l \in DOMAIN EXTS) THEN <<"extension-list">> ELSE <<>>)
PRIMARY == [x \in {"Aac", "Aiff", "Mpeg", "Wav"} |-> "Id3v2"] @@ [x \in {"Ape", "Mpc", "WavPack"} |-> "Ape"]
           @@ [x \in {"Flac", "Opus", "Vorbis", "Speex"} |-> "VorbisComments"] @@ ("Mp4" :> "Mp4Ilst")
RW == ("Ape" :> {"Ape", "Mpeg", "Mpc", "WavPack"}) @@ ("Id3v1" :> {"Aac", "Ape", "Mpeg", "WavPack"}) @@ ("Id3v2" :> {"Aac", "Aiff", "Mpeg", "Wav"})
      @@ ("Mp4Ilst" :> {"Mp4"}) @@ ("VorbisComments" :> {"Flac", "Opus", "Speex", "Vorbis"}) @@ ("RiffInfo" :> {"Wav"}) @@ ("AiffText" :> {"Aiff"})
RO == ("Id3v1" :> {"Mpc"}) @@ ("Id3v2" :> {"Ape", "Flac", "Mpc"})
SupportBad(ev) ==
    LET f == ev.op.f o == ev.out IN
       (IF o.primary # PRIMARY[f] THEN <<"primary-tag">> ELSE <<>>)
    \o (IF \E i \in DOMAIN o.s : o.s[i][2] # (IF f \in RW[o.s[i][1]] THEN "ReadWrite" ELSE IF o.s[i][1] \in DOMAIN RO /\ f \in RO[o.s[i][1]] THEN "ReadOnly" ELSE "Unsupported")
        THEN <<"tag-support">> ELSE <<>>)
(* scrambling of embedded audio descriptions: a 16 bit register of which one byte
   is taken per byte of data; the scheme is its own inverse *)
Xor8(a, b) == a ^^ b
\* per the accessibility addendum: the register is advanced by eight steps of the polynomial
NextKey(k) == LET bit(i) == (k \div Pow(2, i)) % 2 IN
    128 * ((bit(6) + bit(5)) % 2) + 64 * ((bit(5) + bit(4)) % 2) + 32 * ((bit(4) + bit(3)) % 2) + 16 * ((bit(3) + bit(2)) % 2)
    + 8 * ((bit(2) + bit(1)) % 2) + 4 * ((bit(1) + bit(0)) % 2) + 2 * ((bit(7) + bit(5)) % 2) + ((bit(6) + bit(4)) % 2)
KEYS == FoldLeft(LAMBDA acc, i : Append(acc, NextKey(acc[Len(acc)])), <<254>>, [i \in 1..400 |-> i])
Key(n) == KEYS[n + 1]
ScrambleBad(ev) == IF ev.out.b # [i \in DOMAIN ev.op.b |-> Xor8(ev.op.b[i], Key(i - 1))] THEN <<"scramble">>
                   ELSE IF ev.out.twice # ev.op.b THEN <<"scramble-inverse">> ELSE <<>>
ValuesBad(ev) ==
    CASE ev.op.a = "ts" -> TsBad(ev) [] ev.op.a = "tsv" -> TsvBad(ev) [] ev.op.a = "synch" -> SynchBad(ev) [] ev.op.a = "stream" -> StreamBad(ev)
      [] ev.op.a = "enc" -> EncBad(ev) [] ev.op.a = "dec" -> DecBad(ev) [] ev.op.a = "byte" -> ByteBad(ev) [] ev.op.a = "word" -> WordBad(ev)
      [] ev.op.a = "tflags" -> TFlagsBad(ev) [] ev.op.a = "mime" -> MimeBad(ev) [] ev.op.a = "fid" -> FidBad(ev) [] ev.op.a = "genre" -> GenreBad(ev)
      [] ev.op.a = "rating" -> RatingBad(ev) [] ev.op.a = "ext" -> ExtBad(ev) [] ev.op.a = "support" -> SupportBad(ev) [] ev.op.a = "scramble" -> ScrambleBad(ev)
=============================================================================
