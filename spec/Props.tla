-------------------------------- MODULE Props --------------------------------
(* Audio properties: the bytes of the stream headers of every format, written
   from their fields, and what a reader has to report for these fields.
   File(f) is the audio stream as a list of pieces
     [b |-> bytes, z |-> fill count, v |-> fill byte, g |-> 0 / 1, p |-> packets]
   (g = 1: an Ogg page with header bytes b = <<flags, 8 granule bytes, sequence>> and packets p),
   Exp(f) what must be reported. Large numbers are big endian byte strings. *)
EXTENDS Common, Nat256

Raw(b) == [b |-> b, z |-> 0, v |-> 0, g |-> 0, p |-> <<>>]
Fill(b, z, v) == [b |-> b, z |-> z, v |-> v, g |-> 0, p |-> <<>>]
Page(fl, gran, seq, pk) == [b |-> <<fl>> \o gran \o <<seq>>, z |-> 0, v |-> 0, g |-> 1, p |-> pk]
B2(n) == <<n \div 256, n % 256>>
B3(n) == <<n \div 65536, (n \div 256) % 256, n % 256>>
B4(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
L2(n) == Reverse(B2(n))
L4(n) == Reverse(B4(n))
Pad4(b) == [i \in 1..(4 - Len(b)) |-> 0] \o b
Z(n) == [i \in 1..n |-> 0]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
A(str) == [i \in 1..Len(str) |-> AsciiOf[SubSeq(str, i, i)]]
(* ---- bits ---- *)
Bits(n, w) == [i \in 1..w |-> (n \div (2 ^ (w - i))) % 2]
RECURSIVE Bytes(_)
Bytes(b) ==
    IF b = <<>> THEN <<>>
    ELSE LET c == SubSeq(b \o Z(8), 1, 8) IN
         <<c[1] * 128 + c[2] * 64 + c[3] * 32 + c[4] * 16 + c[5] * 8 + c[6] * 4 + c[7] * 2 + c[8]>>
         \o Bytes(IF Len(b) <= 8 THEN <<>> ELSE SubSeq(b, 9, Len(b)))
BitsOf(bytes) == Cat([i \in 1..Len(bytes) |-> Bits(bytes[i], 8)])

(* ---- what must be reported; "-" any, "0" nothing, "=" exactly, "/" near n / d,
        "B" a bitrate of a number of bytes lo..hi ---- *)
Whatever == [k |-> "-", n |-> <<>>, d |-> <<>>]
None == [k |-> "0", n |-> <<>>, d |-> <<>>]
Is(n) == [k |-> "=", n |-> N(n), d |-> <<>>]
IsB(b) == [k |-> "=", n |-> Nb(b), d |-> <<>>]
(* channel counts beyond 255 are not in the format independent properties *)
Few(n) == IF n < 256 THEN Is(n) ELSE None
Near(n, d) == [k |-> "/", n |-> n, d |-> d]
(* d: allowed deviation in bytes *)
Rate(n, d) == [k |-> "B", n |-> n, d |-> N(d)]
Exp0 == [dur |-> Whatever, ob |-> Whatever, ab |-> Whatever, sr |-> Whatever, bd |-> None, ch |-> Whatever, cm |-> None, x |-> <<>>]
(* milliseconds of n samples *)
Ms(n, rate) == Near(Mul(n, N(1000)), rate)

(* ================= MPEG audio ================= *)
MpegBr == [v1 |-> << <<32,64,96,128,160,192,224,256,288,320,352,384,416,448>>, <<32,48,56,64,80,96,112,128,160,192,224,256,320,384>>, <<32,40,48,56,64,80,96,112,128,160,192,224,256,320>> >>,
           v2 |-> << <<32,48,56,64,80,96,112,128,144,160,176,192,224,256>>, <<8,16,24,32,40,48,56,64,80,96,112,128,144,160>>, <<8,16,24,32,40,48,56,64,80,96,112,128,144,160>> >>]
MpegSr == (1 :> <<44100, 48000, 32000>>) @@ (2 :> <<22050, 24000, 16000>>) @@ (25 :> <<11025, 12000, 8000>>)
MBr(f) == (IF f.ver = 1 THEN MpegBr.v1 ELSE MpegBr.v2)[f.layer][f.br]
MSr(f) == MpegSr[f.ver][f.sr + 1]
MSamples(f) == IF f.layer = 1 THEN 384 ELSE IF f.layer = 3 /\ f.ver # 1 THEN 576 ELSE 1152
(* frames are a whole number of slots: 4 bytes in layer I, one byte otherwise *)
MLen(f, pad) == IF f.layer = 1 THEN (((12 * MBr(f) * 1000) \div MSr(f)) + pad) * 4
                ELSE (((MSamples(f) \div 8) * MBr(f) * 1000) \div MSr(f)) + pad
MHead(f) == <<255,
              224 + ((CASE f.ver = 1 -> 3 [] f.ver = 2 -> 2 [] OTHER -> 0) * 8) + ((4 - f.layer) * 2) + (1 - f.crc),
              f.br * 16 + f.sr * 4 + f.pad * 2 + f.priv, f.mode * 64 + f.ext * 16 + f.cr * 8 + f.og * 4 + f.em>>
MSide(f) == IF f.ver = 1 THEN (IF f.mode = 3 THEN 17 ELSE 32) ELSE IF f.mode = 3 THEN 9 ELSE 17
MVbr(f) == CASE f.vbr = "Xing" -> A("Xing") \o <<0, 0, 0, f.vf>> \o f.frames \o f.size
             [] f.vbr = "Info" -> A("Info") \o <<0, 0, 0, f.vf>> \o f.frames \o f.size
             [] f.vbr = "VBRI" -> A("VBRI") \o <<0, 1, 1, 2, 3, 4>> \o f.size \o f.frames \o Z(14)
             [] OTHER -> <<>>
MFirst(f) == MHead(f) \o (IF f.vbr = "-" THEN <<>> ELSE Z(MSide(f)) \o MVbr(f))
MpegFile(f) ==
    <<Fill(MFirst(f), MLen(f, f.pad) - Len(MFirst(f)), 0)>> \o [i \in 1..(f.n - 1) |-> Fill(MHead(f), MLen(f, f.pad) - 4, 0)]
MpegFits(f) == MLen(f, f.pad) >= 24 /\ Len(MFirst(f)) <= MLen(f, f.pad)
MHasVbr(f) == f.vbr # "-" /\ (f.vbr = "VBRI" \/ f.vf % 4 = 3) /\ Nb(f.frames) # <<>> /\ Nb(f.size) # <<>>
MpegExp(f) ==
    LET bytes == N(f.n * MLen(f, f.pad)) IN
    [Exp0 EXCEPT !.sr = Is(MSr(f)), !.ch = Is(IF f.mode = 3 THEN 1 ELSE 2), !.cm = IF f.mode = 2 THEN None ELSE Is(IF f.mode = 3 THEN 4 ELSE 3), !.bd = None,
        !.dur = IF MHasVbr(f) THEN Ms(Mul(Nb(f.frames), N(MSamples(f))), N(MSr(f))) ELSE Near(Mul(bytes, N(8)), N(MBr(f))),
        !.ab = IF MHasVbr(f) THEN Rate(Nb(f.size), 0) ELSE Is(MBr(f)),
        !.x = <<"v" \o ToString(f.ver), "l" \o ToString(f.layer), "m" \o ToString(f.mode), "e" \o (IF f.mode = 1 THEN ToString(f.ext) ELSE "-"),
                "c" \o ToString(f.cr), "o" \o ToString(f.og), "p" \o ToString(f.em)>>]

(* ================= AAC (ADTS) ================= *)
AacSr == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350>>
AacHead(f, len) ==
    Bytes(Bits(4095, 12) \o <<f.ver, 0, 0, 1 - f.crc>> \o Bits(f.prof, 2) \o Bits(f.sr, 4) \o <<f.priv>> \o Bits(f.ch, 3)
          \o <<f.og, f.home, 0, 0>> \o Bits(len, 13) \o Bits(2047, 11) \o Bits(0, 2))
AacFile(f) == [i \in 1..Len(f.lens) |-> Fill(AacHead(f, f.lens[i]) \o (IF f.crc = 1 THEN <<1, 2>> ELSE <<>>), f.lens[i] - (IF f.crc = 1 THEN 9 ELSE 7), 33)]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
AacChannels(c) == IF c = 7 THEN 8 ELSE c
MP4Mask == <<4, 3, 7, 263, 55, 63, 1599>>
AacExp(f) ==
    [Exp0 EXCEPT !.sr = Is(AacSr[f.sr + 1]), !.ch = Is(AacChannels(f.ch)), !.cm = IF f.ch = 0 THEN None ELSE Is(MP4Mask[f.ch]),
        !.x = <<"v" \o (IF f.ver = 1 THEN "2" ELSE "4"), "t" \o ToString(f.prof + 1), "o" \o ToString(f.og)>>]
(* the mean rate, in units of 1000 or 1024 bits; the last frame may not count *)
AacRate(f, q, ms) ==
    LET m == Sum(SubSeq(f.lens, 1, Len(f.lens) - 1)) \div (Len(f.lens) - 1)
        m2 == Sum(f.lens) \div Len(f.lens)
        hi == (((Max2(m, m2) + 1) * 8 * (AacSr[f.sr + 1] \div 100)) \div 10240) + 1
        lo == ((Min2(m, m2) * 8 * (AacSr[f.sr + 1] \div 100)) \div 10486) - 9
        frames == (Len(f.lens) * 1024 * 1000) \div AacSr[f.sr + 1] IN
    /\ q >= lo /\ q <= hi
    /\ hi < 60 \/ Max2(m, m2) > Min2(m, m2) + 3 \/ (ms * 10 >= frames * 9 /\ ms * 10 <= frames * 11)

(* ================= FLAC ================= *)
StreamInfo(f) == <<16, 0, 16, 0, 0, 0, 14, 0, 16, 0>> \o Bytes(Bits(f.sr, 20) \o Bits(f.ch - 1, 3) \o Bits(f.bps - 1, 5) \o Bits(f.total[1], 4)) \o SubSeq(f.total, 2, 5) \o f.md5
FlacFile(f) == <<Raw(A("fLaC") \o <<IF f.pads = <<>> THEN 128 ELSE 0, 0, 0, 34>> \o StreamInfo(f))>>
               \o [i \in 1..Len(f.pads) |-> Fill(<<IF i = Len(f.pads) THEN 129 ELSE 1>> \o B3(f.pads[i]), f.pads[i], 0)]
               \o <<Fill(<<255, 248>>, f.audio, 85)>>
FlacExp(f) ==
    [Exp0 EXCEPT !.sr = Is(f.sr), !.ch = Is(f.ch), !.bd = Is(f.bps), !.dur = IF f.sr = 0 \/ Nb(f.total) = <<>> THEN Is(0) ELSE Ms(Nb(f.total), N(f.sr)),
        !.ab = Rate(N(f.audio + 2), 0), !.x = <<>>]

(* ================= WAV ================= *)
RChunk(id, c) == A(id) \o L4(Len(c)) \o c \o (IF Len(c) % 2 = 1 THEN <<0>> ELSE <<>>)
WavFmt(f) == L2(IF f.ext = 1 THEN 65534 ELSE f.tag) \o L2(f.ch) \o Reverse(f.sr) \o Reverse(f.bps) \o L2(f.align) \o L2(f.bits)
             \o (IF f.ext = 1 THEN L2(22) \o L2(f.valid) \o Reverse(f.mask) \o L2(f.tag) \o <<0, 0, 0, 0, 16, 0, 128, 0, 0, 170, 0, 56, 155, 113>> ELSE f.more)
WavBody(f) ==
    Cat([i \in 1..Len(f.order) |->
        CASE f.order[i] = "fmt" -> RChunk("fmt ", WavFmt(f))
          [] f.order[i] = "fact" -> RChunk("fact", Reverse(f.fact))
          [] f.order[i] = "junk" -> RChunk("JUNK", Z(13))
          [] f.order[i] = "list" -> RChunk("LIST", A("INFOINAM") \o L4(4) \o A("abc") \o <<0>>)
          [] f.order[i] = "data" -> A("data") \o L4(f.data) \o [j \in 1..(f.data + (f.data % 2)) |-> 7]])
WavFile(f) == LET b == WavBody(f) IN <<Raw(A("RIFF") \o L4(Len(b) + 4) \o A("WAVE") \o b)>>
WavPcm(f) == f.tag \in {1, 3}
WavSamples(f) == IF WavPcm(f) THEN N(f.data \div (f.ch * (f.bits \div 8))) ELSE Nb(f.fact)
WavExp(f) ==
    [Exp0 EXCEPT !.sr = IsB(f.sr), !.ch = Is(f.ch), !.bd = IF f.ext = 1 /\ f.valid > 0 THEN Is(f.valid) ELSE IF f.bits > 0 THEN Is(f.bits) ELSE Whatever,
        !.cm = IF f.ext = 1 THEN IsB(f.mask) ELSE None,
        !.dur = Ms(WavSamples(f), Nb(f.sr)),
        !.ab = IF Cmp(Mul(Nb(f.bps), N(8)), N(500)) >= 0 THEN Near(Mul(Nb(f.bps), N(8)), N(1000)) ELSE Rate(N(f.data), 0),
        !.x = <<"f" \o ToString(f.tag)>>]

(* ================= AIFF ================= *)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
(* the 80 bit number n + half/2 *)
F80(n, half) ==
    LET e == Log2(n)
        bits == Bits(n, e + 1) \o <<half>>
        m == SubSeq(bits \o Z(64), 1, 64) IN
    B2(16383 + e) \o Bytes(m)
BChunk(id, c) == A(id) \o B4(Len(c)) \o c \o (IF Len(c) % 2 = 1 THEN <<0>> ELSE <<>>)
AiffComm(f) == B2(f.ch) \o f.frames \o B2(f.bits) \o F80(f.rate, f.half) \o (IF f.comp = "" THEN <<>> ELSE A(f.comp) \o <<Len(f.cname)>> \o A(f.cname) \o (IF Len(f.cname) % 2 = 0 THEN <<0>> ELSE <<>>))
AiffBody(f) ==
    Cat([i \in 1..Len(f.order) |->
        CASE f.order[i] = "comm" -> BChunk("COMM", AiffComm(f))
          [] f.order[i] = "fver" -> BChunk("FVER", <<162, 128, 81, 64>>)
          [] f.order[i] = "junk" -> BChunk("JUNK", Z(13))
          [] f.order[i] = "name" -> BChunk("NAME", A("abc"))
          [] f.order[i] = "ssnd" -> A("SSND") \o B4(f.data + 8) \o Z(8) \o [j \in 1..(f.data + (f.data % 2)) |-> 7]])
AiffFile(f) == LET b == AiffBody(f) IN <<Raw(A("FORM") \o B4(Len(b) + 4) \o A(IF f.comp = "" THEN "AIFF" ELSE "AIFC") \o b)>>
AiffExp(f) ==
    [Exp0 EXCEPT !.sr = IF f.half = 1 THEN Is(f.rate + 1) ELSE Is(f.rate), !.ch = Few(f.ch), !.bd = Is(f.bits),
        !.dur = IF Nb(f.frames) = <<>> THEN Is(0) ELSE Ms(Nb(f.frames), N(f.rate + f.half)), !.ab = Rate(N(f.data), 8),
        !.x = <<"c" \o f.comp, "n" \o (IF f.comp = "ABCD" THEN f.cname ELSE ""), "h" \o ToString(f.ch)>>]

(* ================= Monkey's Audio ================= *)
MacFile(f) ==
    <<Fill(A("MAC ") \o L2(f.ver) \o
       (IF f.ver >= 3980
        THEN <<0, 0>> \o L4(52 + f.xd) \o L4(24) \o Z(20) \o Z(16) \o Z(f.xd) \o L2(f.comp) \o L2(f.flags) \o Reverse(f.bpf) \o Reverse(f.final) \o Reverse(f.frames) \o L2(f.bits) \o L2(f.ch) \o Reverse(f.sr)
        ELSE L2(f.comp) \o L2(f.flags) \o L2(f.ch) \o Reverse(f.sr) \o L4(44) \o L4(0) \o Reverse(f.frames) \o Reverse(f.final) \o Z(16)), f.audio, 85)>>
MacHead(f) == IF f.ver >= 3980 THEN 76 + f.xd ELSE 48
MacBpf(f) == IF f.ver >= 3980 THEN Nb(f.bpf) ELSE IF f.ver >= 3950 THEN N(73728 * 4) ELSE IF f.ver >= 3900 \/ (f.ver >= 3800 /\ f.comp >= 4000) THEN N(73728) ELSE N(9216)
MacExp(f) ==
    [Exp0 EXCEPT !.sr = IsB(f.sr), !.ch = Is(f.ch), !.bd = Is(IF f.ver >= 3980 THEN f.bits ELSE IF f.flags % 2 = 1 THEN 8 ELSE IF (f.flags \div 8) % 2 = 1 THEN 24 ELSE 16),
        !.dur = Ms(Add(Nb(f.final), Mul(MacBpf(f), Sub1(Nb(f.frames)))), Nb(f.sr)), !.ab = Rate(N(f.audio + MacHead(f)), 0), !.x = <<"v" \o ToString(f.ver)>>]

(* ================= WavPack ================= *)
WvSr == <<6000, 8000, 9600, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 192000>>
WvMeta(id, c) ==
    LET odd == Len(c) % 2
        w == (Len(c) + odd) \div 2
        big == IF w > 255 THEN 128 ELSE 0 IN
    <<id + (odd * 64) + big, w % 256>> \o (IF big > 0 THEN <<(w \div 256) % 256, w \div 65536>> ELSE <<>>) \o c \o (IF odd = 1 THEN <<0>> ELSE <<>>)
WvChannels(f) ==
    IF f.chsz = 0 THEN <<>>
    ELSE IF f.chsz >= 6 THEN WvMeta(13, <<(f.ch - 1) % 256, (f.blocks - 1) % 256, (f.ch - 1) \div 256>> \o SubSeq(Reverse(f.mask), 1, f.chsz - 3))
    ELSE WvMeta(13, <<f.ch>> \o SubSeq(Reverse(f.mask), 1, f.chsz - 1))
WvFlags(f, i) ==
    Bytes(<<f.dsd>> \o Bits(0, 4) \o Bits(f.sr, 4) \o Bits(0, 5) \o Bits(f.shift, 5) \o <<IF i = f.blocks THEN 1 ELSE 0, IF i = 1 THEN 1 ELSE 0>>
          \o Bits(0, 7) \o <<f.hybrid, f.mono>> \o Bits(f.bytes - 1, 2))
WvBlock(f, i, samples) ==
    LET meta == (IF i = 1 THEN f.pre \o WvChannels(f) ELSE <<>>)
                \o (IF f.sr = 15 THEN WvMeta(39, Reverse(B3(f.rate))) ELSE <<>>)
                \o (IF f.dsd = 1 THEN WvMeta(14, <<f.mult, 1>>) ELSE <<>>) \o WvMeta(10, [j \in 1..f.audio |-> 85]) IN
    Raw(A("wvpk") \o L4(24 + Len(meta)) \o L2(f.ver) \o <<0, 0>> \o Reverse(f.total) \o Z(4) \o L4(samples) \o Reverse(WvFlags(f, i)) \o <<1, 2, 3, 4>> \o meta)
(* an optional block without samples in front; f.rep groups of f.blocks blocks *)
WvFile(f) == (IF f.empty = 1 THEN <<WvBlock([f EXCEPT !.blocks = 1, !.chsz = 0], 1, 0)>> ELSE <<>>)
             \o Cat([k \in 1..f.rep |-> [i \in 1..f.blocks |-> WvBlock(f, i, 100)]])
RECURSIVE WvSize(_)
WvSize(s) == IF s = <<>> THEN 0 ELSE Len(s[1].b) + s[1].z + WvSize(Tail(s))
WvRate(f) == (IF f.sr = 15 THEN f.rate ELSE WvSr[f.sr + 1]) * (IF f.dsd = 1 THEN 2 ^ f.mult ELSE 1)
WvExp(f) ==
    [Exp0 EXCEPT !.sr = Is(WvRate(f)), !.ch = Few(IF f.blocks = 1 THEN 2 - f.mono ELSE f.ch),
        !.cm = IF f.blocks = 1 THEN Is(IF f.mono = 1 THEN 4 ELSE 3) ELSE IF Nb(f.mask) = <<>> THEN None ELSE IsB(f.mask),
        !.bd = Is(f.bytes * 8 - f.shift), !.dur = Ms(Nb(f.total), N(WvRate(f))), !.ab = Rate(N(WvSize(WvFile(f))), 0),
        !.x = <<"v" \o ToString(f.ver), IF f.hybrid = 0 THEN "lossless" ELSE "lossy", "h" \o ToString(IF f.blocks = 1 THEN 2 - f.mono ELSE f.ch)>>]

(* ================= Ogg ================= *)
Gran(b) == Reverse(b)
Vc == <<3, 0, 0, 0>> \o A("abc") \o L4(0)
Body(n) == [i \in 1..n |-> 85]
OggAudio(f, s0) == [i \in 1..Len(f.grans) |-> Page(IF i = Len(f.grans) THEN 4 ELSE 0, Gran(f.grans[i]), s0 + i, <<Body(f.body)>>)]
LastG(f) == Nb(f.grans[Len(f.grans)])
VorbisId(f) == <<1>> \o A("vorbis") \o L4(0) \o <<f.ch>> \o Reverse(f.sr) \o Reverse(f.max) \o Reverse(f.nom) \o Reverse(f.min) \o <<184, 1>>
VorbisFile(f) == <<Page(2, Z(8), 0, <<VorbisId(f)>>), Page(0, Z(8), 1, <<<<3>> \o A("vorbis") \o Vc \o <<1>>, <<5>> \o A("vorbis") \o Body(30)>>)>> \o OggAudio(f, 1)
Signed(b) == b[1] >= 128
VorbisExp(f) ==
    [Exp0 EXCEPT !.sr = IsB(f.sr), !.ch = Is(f.ch), !.dur = Ms(LastG(f), Nb(f.sr)),
        !.ab = IF ~Signed(f.nom) /\ Nb(f.nom) # <<>> THEN Near(Nb(f.nom), N(1000)) ELSE Whatever,
        !.x = <<"M" \o IntText(f.max), "N" \o IntText(f.nom), "m" \o IntText(f.min)>>]
OpusId(f) == A("OpusHead") \o <<1, f.ch>> \o L2(f.skip) \o Reverse(f.sr) \o L2(f.gain) \o <<f.fam>>
             \o (IF f.fam = 0 THEN <<>> ELSE <<f.ch, 0>> \o [i \in 1..f.ch |-> i - 1])
OpusFile(f) == <<Page(2, Z(8), 0, <<OpusId(f)>>), Page(0, Z(8), 1, <<A("OpusTags") \o Vc>>)>> \o OggAudio(f, 1)
OpusMask == <<4, 3, 7, 51, 55, 63, 1807, 1599>>
OpusExp(f) ==
    [Exp0 EXCEPT !.sr = IsB(f.sr), !.ch = Is(f.ch), !.cm = IF f.fam = 255 THEN Whatever ELSE Is(OpusMask[f.ch]),
        !.dur = Ms(SubSat(LastG(f), N(f.skip)), N(48000)), !.ab = Rate(N(Len(f.grans) * (f.body + 28)), 16 + Len(f.grans) * ((f.body \div 255) + 1)),
        !.x = <<>>]
SpeexId(f) == A("Speex   ") \o A("1.2rc1") \o Z(14) \o L4(1) \o L4(80) \o Reverse(f.sr) \o L4(f.mode) \o L4(4) \o L4(f.ch) \o Reverse(f.nom) \o L4(160) \o L4(f.vbr) \o L4(1) \o Z(12)
SpeexFile(f) == <<Page(2, Z(8), 0, <<SpeexId(f)>>), Page(0, Z(8), 1, <<Vc>>)>> \o OggAudio(f, 1)
SpeexExp(f) ==
    [Exp0 EXCEPT !.sr = IsB(f.sr), !.ch = Is(f.ch), !.dur = Ms(LastG(f), Nb(f.sr)),
        !.ab = IF ~Signed(f.nom) /\ Nb(f.nom) # <<>> THEN Near(Nb(f.nom), N(1000)) ELSE Rate(N(Len(f.grans) * (f.body + 28)), 260 + Len(f.grans) * ((f.body \div 255) + 1)),
        !.x = <<"m" \o ToString(f.mode), "N" \o IntText(f.nom), "v" \o ToString(f.vbr)>>]

(* ================= MP4 ================= *)
Atom(id, c) == B4(Len(c) + 8) \o A(id) \o c
Mdhd(f) == IF f.mv = 1 THEN Atom("mdhd", <<1, 0, 0, 0>> \o Z(16) \o f.scale \o f.dur \o <<85, 196, 0, 0>>)
           ELSE Atom("mdhd", Z(12) \o f.scale \o SubSeq(f.dur, 5, 8) \o <<85, 196, 0, 0>>)
Hdlr(t) == Atom("hdlr", Z(8) \o A(t) \o Z(13))
Desc(f, tag, c) == <<tag>> \o (IF f.long = 1 THEN <<128, 128, 128, Len(c)>> ELSE <<Len(c)>>) \o c
Asc(f) == Bytes((IF f.aot < 31 THEN Bits(f.aot, 5) ELSE Bits(31, 5) \o Bits(f.aot - 32, 6))
                \o (IF f.fi = 15 THEN Bits(15, 4) \o Bits(f.explicit, 24) ELSE Bits(f.fi, 4)) \o Bits(f.conf, 4)) \o Z(4)
Esds(f) == Atom("esds", Z(4) \o Desc(f, 3, <<0, 1, 0>> \o Desc(f, 4, <<f.oti, 21, 0, 6, 0>> \o f.maxbr \o f.avg \o (IF f.asc = 1 THEN Desc(f, 5, Asc(f)) ELSE <<>>)) \o Desc(f, 6, <<2>>)))
Alac(f) == Atom("alac", Z(4) \o B4(4096) \o <<0, f.bits, 40, 10, 14, f.ach, 0, 255, 0, 0, 16, 0>> \o f.avg \o B4(f.asr)) \o (IF f.chan = 1 THEN Atom("chan", Z(16)) ELSE <<>>)
DfLa(f) == Atom("dfLa", Z(4) \o <<128, 0, 0, 34>> \o StreamInfo([sr |-> f.asr, ch |-> f.ach, bps |-> f.bits, total |-> Z(5), md5 |-> Z(16)]))
(* a 64 bit IEEE number *)
F64(n) == LET e == Log2(n) m == SubSeq(Bits(n, e + 1) \o Z(53), 2, 53) IN Bytes(<<0>> \o Bits(1023 + e, 11) \o m)
Entry(f, id, kids) ==
    Atom(id, Z(6) \o <<0, 1>> \o B2(f.ev) \o Z(6) \o
       (IF f.ev = 2 THEN B2(3) \o B2(16) \o B2(65534) \o B2(0) \o B4(65536) \o B4(72) \o F64(f.esr) \o B4(f.ech) \o <<127, 0, 0, 0>> \o B4(16) \o Z(12)
        ELSE B2(f.ech) \o B2(16) \o Z(4) \o B2(f.esr) \o B2(0) \o (IF f.ev = 1 THEN Z(16) ELSE <<>>)) \o kids)
Entries(f) ==
    (IF f.first = "-" THEN <<>> ELSE Entry([f EXCEPT !.ev = 0, !.ech = 1, !.esr = 8000], f.first, Z(f.firstn)))
    \o Entry(f, f.codec, CASE f.codec = "mp4a" -> (IF f.esds = 1 THEN Esds(f) ELSE <<>>) [] f.codec = "alac" -> Alac(f) [] f.codec = "fLaC" -> DfLa(f) [] OTHER -> Z(12))
Stsd(f) == Atom("stsd", Z(4) \o B4(IF f.first = "-" THEN 1 ELSE 2) \o Entries(f))
Stts(f) == IF f.stts = 0 THEN <<>> ELSE Atom("stts", Z(4) \o B4(1) \o B4(10) \o B4(1024))
Minf(f) == Atom("minf", Atom("smhd", Z(8)) \o Atom("stbl", (IF f.swap = 1 THEN Stts(f) \o Stsd(f) ELSE Stsd(f) \o Stts(f)) \o Atom("stsz", Z(12))))
Mdia(f) == Atom("mdia", Cat([i \in 1..Len(f.order) |-> CASE f.order[i] = "mdhd" -> Mdhd(f) [] f.order[i] = "hdlr" -> Hdlr("soun") [] f.order[i] = "minf" -> Minf(f) [] OTHER -> Atom("free", Z(5))]))
Video == Atom("trak", Atom("tkhd", Z(84)) \o Atom("mdia", Mdhd([mv |-> 0, scale |-> B4(600), dur |-> Z(4) \o B4(777)]) \o Hdlr("vide") \o Atom("minf", Atom("vmhd", Z(12)))))
Moov(f) == Atom("moov", Atom("mvhd", Z(100)) \o (IF f.video = 1 THEN Video ELSE <<>>) \o Atom("trak", Atom("tkhd", Z(84)) \o Mdia(f)) \o (IF f.video = 2 THEN Video ELSE <<>>))
Mdat(f) == Fill(B4(f.mdat + 8) \o A("mdat"), f.mdat, 85)
Mp4File(f) == <<Raw(Atom("ftyp", A(f.brand) \o Z(4) \o A("isom")))>> \o (IF f.front = 1 THEN <<Mdat(f), Raw(Moov(f))>> ELSE <<Raw(Moov(f)), Raw(Atom("free", Z(20))), Mdat(f)>>)
ConfChannels == <<1, 2, 3, 4, 5, 6, 8>>
Mp4Exp(f) ==
    LET asc == f.codec = "mp4a" /\ f.esds = 1 /\ f.asc = 1
        avg == IF f.codec \in {"alac"} \/ (f.codec = "mp4a" /\ f.esds = 1) THEN Nb(f.avg) ELSE <<>>
        esr == f.esr
        known == f.codec \in {"mp4a", "alac", "fLaC"} IN
    [Exp0 EXCEPT
        !.sr = IF asc THEN (IF f.fi = 15 THEN Is(f.explicit) ELSE IF f.fi > 12 THEN Is(esr) ELSE Is(AacSr[f.fi + 1])) ELSE IF f.codec \in {"alac", "fLaC"} THEN Is(f.asr) ELSE IF f.ev = 1 /\ ~known THEN Whatever ELSE Is(esr),
        !.ch = IF asc /\ f.conf \in 1..7 THEN Is(ConfChannels[f.conf]) ELSE IF f.codec \in {"alac", "fLaC"} THEN Is(f.ach) ELSE Is(f.ech),
        !.bd = IF f.codec \in {"alac", "fLaC"} THEN Is(f.bits) ELSE None,
        !.dur = Ms(Nb(f.dur), Nb(f.scale)),
        !.ab = IF f.stts = 0 /\ Cmp(avg, N(1000)) >= 0 THEN Near(avg, N(1000)) ELSE IF Nb(f.dur) = <<>> THEN Whatever ELSE Rate(N(f.mdat), 0),
        !.x = <<"b" \o f.brand, "k" \o (CASE f.codec = "alac" -> "ALAC" [] f.codec = "fLaC" -> "FLAC" [] f.codec = "mp4a" /\ (f.esds = 0 \/ f.oti \in {64, 65, 102, 103, 104}) -> "AAC" [] f.codec = "mp4a" /\ f.oti \in {105, 107} -> "MP3" [] OTHER -> "-"),
                "t" \o (IF asc THEN ToString(f.aot) ELSE "-"), "d" \o (IF "drms" \in {f.codec, f.first} THEN "1" ELSE "0")>>]

(* ================= Musepack ================= *)
MpcSr == <<44100, 48000, 37800, 32000>>
Sv7File(f) ==
    <<Fill(A("MP+") \o <<7 + f.minor * 16>> \o Reverse(f.frames)
      \o Reverse(Bytes(<<f.is, f.ms>> \o Bits(f.band, 6) \o Bits(f.profile, 4) \o Bits(f.link, 2) \o Bits(f.sr, 2) \o Bits(f.level, 16)))
      \o L2(f.tp) \o L2(f.tg) \o L2(f.ap) \o L2(f.ag)
      \o Reverse(Bytes(<<f.gapless>> \o Bits(f.last, 11) \o <<f.fast>> \o Bits(0, 19))) \o <<f.enc, 0, 0, 0>>, f.audio, 85)>>
Gain(g, v) == (* 64.82 dB minus the gain in units of 1/256 dB *)
    IF g = 0 \/ 6482 - g < 0 \/ ((6482 - g) * 64) \div 25 > 32766 THEN Is(0) ELSE Near(N((6482 - g) * 64), N(25))
Sv7Exp(f) ==
    LET all == Mul(Nb(f.frames), N(1152))
        heard == SubSat(all, N(IF f.gapless = 1 THEN 1152 - f.last ELSE 481)) IN
    [Exp0 EXCEPT !.sr = Is(MpcSr[f.sr + 1]), !.ch = Is(2), !.dur = Ms(all, N(MpcSr[f.sr + 1])),
        !.ab = Near(Mul(N((f.audio + 28) * 8), N(MpcSr[f.sr + 1])), Mul(heard, N(1000))),
        !.x = <<"F" \o IntText(f.frames), "i" \o ToString(f.is), "m" \o ToString(f.ms), "b" \o ToString(f.band), "p" \o ToString(IF f.profile \in 2..4 THEN 2 ELSE f.profile), "l" \o ToString(f.link),
                "L" \o ToString(f.level), "g" \o ToString(f.gapless), "e" \o ToString(IF f.gapless = 1 THEN f.last ELSE 0), "f" \o ToString(f.fast)>>]
RECURSIVE VarLen(_, _)
(* big endian groups of 7 bits of a number given by bits *)
VarBits(b) == LET w == ((Len(b) + 6) \div 7) * 7 IN Z(w - Len(b)) \o b
VarLen(b, i) == IF i * 7 > Len(b) THEN <<>> ELSE <<Bytes(<<IF i * 7 = Len(b) THEN 0 ELSE 1>> \o SubSeq(b, i * 7 - 6, i * 7))[1]>> \o VarLen(b, i + 1)
Var(bytes, min) == (* at least min groups *)
    LET s == BitsOf(bytes)
        k == {i \in 1..Len(s) : s[i] = 1}
        t == IF k = {} THEN <<0>> ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, Len(s))
        v == VarBits(t) IN
    VarLen((IF Len(v) < 7 * min THEN Z(7 * min - Len(v)) ELSE <<>>) \o v, 1)
Packet(key, c, w) == A(key) \o Var(B4(Len(c) + 2 + w), w) \o c
WidthOf(n) == IF n + 3 < 128 THEN 1 ELSE IF n + 4 < 16384 THEN 2 ELSE 3
Pk(key, c, more) == LET w == WidthOf(Len(c)) + more IN Packet(key, c, w)
Sv8Sh(f) == <<1, 2, 3, 4, 8>> \o Var(f.count, f.vw) \o Var(f.silence, 1) \o Bytes(Bits(f.sr, 3) \o Bits(f.band - 1, 5)) \o Bytes(Bits(f.ch - 1, 4) \o <<f.ms>> \o Bits(f.blk, 3))
Sv8File(f) ==
    <<Raw(A("MPCK") \o Cat([i \in 1..Len(f.order) |->
        CASE f.order[i] = "SH" -> Pk("SH", Sv8Sh(f), f.more) [] f.order[i] = "RG" -> Pk("RG", <<1>> \o B2(f.tg) \o B2(f.tp) \o B2(f.ag) \o B2(f.ap), 0)
          [] f.order[i] = "EI" -> Pk("EI", <<f.prof * 2 + f.pns, 1, f.minor, 3>>, 0) [] f.order[i] = "SO" -> Pk("SO", Z(3), 0)
          [] f.order[i] = "AP" -> Pk("AP", Body(f.audio), f.more) [] f.order[i] = "SE" -> Pk("SE", <<>>, 0)]))>>
Sv8Exp(f) ==
    LET aps == Cardinality({i \in DOMAIN f.order : f.order[i] = "AP"}) IN
    [Exp0 EXCEPT !.sr = Is(MpcSr[f.sr + 1]), !.ch = Is(f.ch),
        !.dur = IF Cmp(Nb(f.count), Nb(f.silence)) = 0 THEN Is(0) ELSE Ms(SubSat(Nb(f.count), Nb(f.silence)), N(MpcSr[f.sr + 1])),
        !.ab = Rate(N(aps * f.audio), 60),
        !.x = <<"b" \o ToString(f.band), "m" \o ToString(f.ms), "a" \o ToString(4 ^ f.blk), "tg" \o ToString(f.tg), "tp" \o ToString(f.tp), "ag" \o ToString(f.ag), "ap" \o ToString(f.ap),
                "p" \o ToString(f.prof), "n" \o ToString(f.pns), "v1." \o ToString(f.minor) \o ".3">>]
Sv5File(f) == <<Fill(Reverse(Bytes(Bits(0, 9) \o <<0, f.ms>> \o Bits(f.ver, 10) \o Bits(f.band, 5) \o Bits(1, 6))) \o (IF f.ver >= 5 THEN Reverse(f.frames) ELSE <<0, 0>> \o Reverse(SubSeq(f.frames, 3, 4))) \o Z(24), f.audio, 85)>>
Sv5Frames(f) == LET n == IF f.ver >= 5 THEN Nb(f.frames) ELSE Nb(SubSeq(f.frames, 3, 4)) IN IF f.ver < 6 THEN Sub1(n) ELSE n
Sv5Exp(f) ==
    [Exp0 EXCEPT !.sr = Is(44100), !.ch = Is(2), !.dur = IF Sv5Frames(f) = <<>> THEN Is(0) ELSE Ms(SubSat(Mul(Sv5Frames(f), N(1152)), N(481)), N(44100)),
        !.x = <<"v" \o ToString(f.ver), "b" \o ToString(f.band), "m" \o ToString(f.ms)>>]

(* ================= all ================= *)
File(f) == CASE f.fmt = "mpeg" -> MpegFile(f) [] f.fmt = "aac" -> AacFile(f) [] f.fmt = "flac" -> FlacFile(f) [] f.fmt = "wav" -> WavFile(f) [] f.fmt = "aiff" -> AiffFile(f)
             [] f.fmt = "ape" -> MacFile(f) [] f.fmt = "wv" -> WvFile(f) [] f.fmt = "vorbis" -> VorbisFile(f) [] f.fmt = "opus" -> OpusFile(f) [] f.fmt = "speex" -> SpeexFile(f)
             [] f.fmt = "mp4" -> Mp4File(f) [] f.fmt = "sv7" -> Sv7File(f) [] f.fmt = "sv8" -> Sv8File(f) [] f.fmt = "sv5" -> Sv5File(f)
Exp(f) == CASE f.fmt = "mpeg" -> MpegExp(f) [] f.fmt = "aac" -> AacExp(f) [] f.fmt = "flac" -> FlacExp(f) [] f.fmt = "wav" -> WavExp(f) [] f.fmt = "aiff" -> AiffExp(f)
             [] f.fmt = "ape" -> MacExp(f) [] f.fmt = "wv" -> WvExp(f) [] f.fmt = "vorbis" -> VorbisExp(f) [] f.fmt = "opus" -> OpusExp(f) [] f.fmt = "speex" -> SpeexExp(f)
             [] f.fmt = "mp4" -> Mp4Exp(f) [] f.fmt = "sv7" -> Sv7Exp(f) [] f.fmt = "sv8" -> Sv8Exp(f) [] f.fmt = "sv5" -> Sv5Exp(f)
(* v: a number reported, or <<-1>> for nothing; ms the reported duration; 8 bytes / ms = kbit/s *)
RateOk(v, w, ms) ==
    \/ Cmp(ms, N(2)) < 0
    \/ LET lo == SubSat(w.n, w.d)
           hi == Add(w.n, w.d)
           dn == Sub1(ms)
           up == Add(ms, N(1)) IN
       /\ Cmp(Mul(v, dn), Add(Mul(hi, N(8)), dn)) <= 0
       /\ Cmp(Mul(lo, N(8)), Mul(Add(v, N(1)), up)) <= 0
Ok(v, w, ms) ==
    CASE w.k = "-" -> TRUE
      [] w.k = "0" -> v = <<-1>>
      [] v = <<-1>> -> w.k = "B" /\ Cmp(ms, N(2)) < 0
      [] w.k = "=" -> v = w.n
      [] w.k = "/" -> Cmp(Mul(v, w.d), Add(w.n, w.d)) <= 0 /\ Cmp(w.n, Add(Mul(v, w.d), w.d)) <= 0
      [] w.k = "B" -> RateOk(v, w, ms)
(* e: [f, res, same, p |-> [dur, ob, ab, sr, bd, ch, cm], x, len, alen] *)
PropsBad(e) ==
    IF e.res # "ok" THEN <<"refused">>
    ELSE LET w == Exp(e.f)
             p == e.p
             bad(name, v, k) == IF Ok(v, k, p.dur) THEN <<>> ELSE <<name>> IN
         bad("duration", p.dur, w.dur) \o bad("rate", p.sr, w.sr) \o bad("channels", p.ch, w.ch) \o bad("depth", p.bd, w.bd) \o bad("mask", p.cm, w.cm) \o bad("audio bitrate", p.ab, w.ab)
         \o (IF e.f.fmt = "aac" /\ ~AacRate(e.f, ToInt(p.ab), ToInt(p.dur)) THEN <<"aac bitrate">> ELSE <<>>)
         \o (IF e.f.fmt \in {"aac", "sv5", "sv7"} \/ p.ob = <<-1>> \/ p.dur = <<>> \/ RateOk(p.ob, [n |-> e.mid, d |-> e.dev], p.dur) THEN <<>> ELSE <<"overall bitrate">>)
         \o (IF e.x # w.x THEN <<"details">> ELSE <<>>)
         \o (IF ~e.same THEN <<"generic">> ELSE <<>>)
=============================================================================
