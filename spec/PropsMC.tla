------------------------------ MODULE PropsMC -------------------------------
(* Header fields of every format, over their ranges; with Fmt = "file" the fields
   come from a file. Every one is emitted with the bytes of its stream. *)
EXTENDS Props, Json, IOUtils
CONSTANTS Fmt
VARIABLES i, done
Fs == IF Fmt = "file" THEN JsonDeserialize(IOEnv.FIELDS) ELSE <<>>
MpegBase == [fmt |-> "mpeg", ver |-> 1, layer |-> 3, br |-> 9, sr |-> 0, pad |-> 0, mode |-> 0, ext |-> 0, cr |-> 0, og |-> 0, em |-> 0, priv |-> 0, crc |-> 0, vbr |-> "-", vf |-> 3, frames |-> Z(4), size |-> Z(4), n |-> 4]
Mpeg ==
    {f \in [fmt : {"mpeg"}, ver : {1, 2, 25}, layer : 1..3, br : 1..14, sr : 0..2, pad : {0, 1}, mode : 0..3, ext : {2}, cr : {0}, og : {1}, em : {0}, priv : {0}, crc : {0}, vbr : {"-"}, vf : {3}, frames : {Z(4)}, size : {Z(4)}, n : {4}] : MpegFits(f)}
    \cup {f \in [fmt : {"mpeg"}, ver : {1, 2, 25}, layer : {3}, br : {9, 12}, sr : 0..2, pad : {0}, mode : 0..3, ext : {1}, cr : {1}, og : {0}, em : {0}, priv : {1}, crc : {0}, vbr : {"Xing", "Info", "VBRI"}, vf : {1, 3, 15}, frames : {Z(4), <<0, 0, 0, 1>>, <<0, 0, 39, 16>>, <<0, 16, 0, 1>>}, size : {Z(4), <<0, 80, 0, 7>>}, n : {3}] : MpegFits(f)}
    \cup {f \in [fmt : {"mpeg"}, ver : {1, 2}, layer : {2, 3}, br : {10}, sr : {0}, pad : {1}, mode : 0..3, ext : 0..3, cr : {0, 1}, og : {0, 1}, em : 0..3, priv : {0, 1}, crc : {0, 1}, vbr : {"-"}, vf : {3}, frames : {Z(4)}, size : {Z(4)}, n : {5}] : MpegFits(f)}
Aac == [fmt : {"aac"}, ver : {0, 1}, crc : {0, 1}, prof : 0..3, sr : 0..12, ch : 0..7, priv : {1}, og : {0, 1}, home : {0}, lens : {<<200, 200, 200, 200>>}]
       \cup [fmt : {"aac"}, ver : {0}, crc : {0}, prof : {1}, sr : {0, 4, 11}, ch : {2}, priv : {0}, og : {0}, home : {1}, lens : {<<9, 700, 9>>, <<8191, 8191, 8191>>, <<255, 256, 2047, 2048, 2049, 300>>, <<600, 600>>}]
T36 == {Z(5), <<0, 0, 0, 172, 68>>, <<0, 255, 255, 255, 255>>, <<15, 255, 255, 255, 255>>, <<8, 0, 0, 0, 1>>, <<0, 0, 0, 0, 1>>}
Flac == [fmt : {"flac"}, sr : {1, 8000, 44100, 96000, 192000, 655350}, ch : 1..8, bps : {4, 8, 12, 16, 17, 20, 24, 32}, total : T36, md5 : {[k \in 1..16 |-> 16 * k - 1]}, pads : {<<>>, <<40>>}, audio : {400}]
Wav == {f \in [fmt : {"wav"}, ext : {0, 1}, tag : {1, 3, 17, 85}, ch : {1, 2, 6, 255}, sr : {B4(8000), B4(44100), <<255, 255, 255, 255>>}, bps : {B4(0), B4(176400), <<255, 255, 255, 255>>}, align : {4}, bits : {0, 8, 16, 24, 32}, valid : {0, 20}, mask : {B4(63), <<128, 0, 0, 1>>},
          more : {<<>>, <<0, 0>>}, fact : {B4(88200)}, data : {0, 4411}, order : {<<"fmt", "fact", "data">>, <<"junk", "fmt", "list", "fact", "data", "junk">>}] :
          /\ f.data > 0 /\ (WavPcm(f) => f.bits > 0 /\ (f.order[1] = "fmt")) /\ (f.ext = 0 => f.valid = 0 /\ f.mask = B4(63)) /\ (f.ext = 1 => f.more = <<>>) /\ (f.bits = 0 => f.ext = 0) }
Aiff == {f \in [fmt : {"aiff"}, ch : {1, 2, 256}, frames : {Z(4), <<0, 0, 172, 69>>, <<255, 255, 255, 255>>}, bits : {8, 16, 24, 32}, rate : {1, 11025, 44100, 65535, 2147483646}, half : {0, 1}, comp : {"", "NONE", "sowt", "fl32", "ABCD"}, cname : {"", "xyz"}, data : {801},
          order : {<<"comm", "ssnd">>, <<"fver", "junk", "ssnd", "name", "comm">>}] : (f.comp = "" => f.cname = "")}
Mac == {f \in [fmt : {"ape"}, ver : {3930, 3799, 3800, 3890, 3899, 3900, 3949, 3950, 3970, 3979, 3980, 3990}, xd : {0, 8}, comp : {2000, 3000, 4000}, flags : {0, 1, 8, 9}, bpf : {B4(73728), <<0, 4, 128, 0>>}, final : {B4(1), B4(2), B4(1000)}, frames : {B4(1), B4(2), <<0, 1, 134, 160>>}, bits : {8, 16, 24}, ch : {1, 2}, sr : {B4(44100), B4(96000)}, audio : {200}] :
          (f.ver < 3980 => f.bits = 8 /\ f.bpf = B4(73728) /\ f.xd = 0) /\ (f.ver >= 3980 => f.flags \in {0, 1} /\ f.comp = 2000)}
Wv == {f \in [fmt : {"wv"}, dsd : {0, 1}, sr : 0..15, rate : {45678}, shift : {0, 4}, blocks : {1, 3}, hybrid : {0, 1}, mono : {0, 1}, bytes : 1..4, chsz : {0, 2, 3, 4, 5, 6, 7}, ch : {5, 6, 300}, mask : {B4(63), <<18, 52, 86, 120>>}, mult : {0, 3}, ver : {1026, 1040}, total : {B4(3000), <<15, 255, 255, 255>>}, audio : {60}, rep : {1}, pre : {<<>>}, empty : {0}] :
          /\ (f.dsd = 0 => f.mult = 0) /\ (f.dsd = 1 => f.bytes = 1 /\ f.shift = 0 /\ f.sr \in {12, 15})
          /\ (f.blocks = 1 => f.chsz = 0 /\ f.ch = 5 /\ f.mask = B4(63) /\ f.ver = 1040)
          /\ (f.blocks > 1 => f.mono = 0 /\ f.shift = 0 /\ f.bytes = 2 /\ f.hybrid = 0 /\ f.sr \in {9, 12, 15} /\ f.chsz > 0 /\ f.ver = 1026 /\ (f.ch = 300 <=> f.chsz >= 6) /\ (f.chsz \notin {5, 7} => f.mask = B4(63)))}
G == {<<B4(0) \o B4(48000)>>, <<B4(0) \o B4(960), B4(0) \o <<0, 7, 161, 32>>>>, <<B4(0) \o B4(5), B4(1) \o B4(77)>>}
Bps == {Z(4), <<0, 1, 244, 0>>, <<255, 255, 255, 255>>, <<127, 255, 255, 255>>}
Vorbis == [fmt : {"vorbis"}, ch : {1, 2, 6, 255}, sr : {B4(8000), B4(44100), <<0, 2, 238, 0>>}, max : Bps, nom : Bps, min : {Z(4), <<255, 255, 255, 255>>}, grans : G, body : {100}]
Opus == {f \in [fmt : {"opus"}, ch : {1, 2, 3, 4, 5, 6, 7, 8, 200}, skip : {0, 312, 3840, 65535}, sr : {B4(0), B4(44100), B4(192000)}, gain : {0, 256, 65535}, fam : {0, 1, 255}, grans : G, body : {100, 600}] : (f.fam = 0 => f.ch <= 2) /\ (f.fam = 1 => f.ch <= 8)}
Speex == [fmt : {"speex"}, ch : {1, 2}, sr : {B4(8000), B4(16000), B4(32000)}, mode : 0..2, nom : Bps, vbr : {0, 1}, grans : G, body : {100, 600}]
B8(b) == Z(4) \o b
Mp4Base == [fmt |-> "mp4", mv |-> 0, scale |-> B4(44100), dur |-> B8(B4(441000)), ev |-> 0, ech |-> 2, esr |-> 44100, codec |-> "mp4a", esds |-> 1, long |-> 0, oti |-> 64, maxbr |-> B4(128000), avg |-> B4(128000), asc |-> 1, aot |-> 2, fi |-> 4, explicit |-> 44100, conf |-> 2,
            bits |-> 16, ach |-> 2, asr |-> 48000, chan |-> 0, first |-> "-", firstn |-> 0, stts |-> 1, swap |-> 0, order |-> <<"mdhd", "hdlr", "minf">>, video |-> 0, mdat |-> 4000, brand |-> "M4A ", front |-> 0]
Mp4 ==
    {[Mp4Base EXCEPT !.aot = a, !.fi = x, !.conf = c, !.explicit = e, !.long = l] : a \in {1, 2, 3, 4, 17, 23, 32, 39, 42, 46}, x \in {0, 4, 12, 13, 15}, c \in 0..7, e \in {8000, 44100, 96000, 5644800}, l \in {0, 1}}
    \cup {[Mp4Base EXCEPT !.oti = o, !.asc = s, !.avg = v, !.stts = t, !.esds = d, !.mv = m] : o \in {64, 102, 105, 107, 221}, s \in {0, 1}, v \in {Z(4), B4(96000), B4(500)}, t \in {0, 1}, d \in {0, 1}, m \in {0, 1}}
    \cup {[Mp4Base EXCEPT !.codec = k, !.ev = v, !.ech = c, !.esr = r, !.esds = d, !.first = p, !.firstn = n] : k \in {"mp4a", "alac", "fLaC", "lpcm", "drms"}, v \in {0, 1, 2}, c \in {1, 2}, r \in {8000, 44100}, d \in {0, 1}, p \in {"-", "drms", "abcd"}, n \in {0, 4, 28, 90}}
    \cup {[Mp4Base EXCEPT !.codec = k, !.bits = b, !.ach = c, !.asr = r, !.chan = h, !.stts = t, !.avg = a] : k \in {"alac", "fLaC"}, b \in {16, 24}, c \in {1, 2, 8}, r \in {44100, 192000}, h \in {0, 1}, t \in {0, 1}, a \in {Z(4), B4(700000)}}
    \cup {[Mp4Base EXCEPT !.order = o, !.video = v, !.swap = s, !.front = fr, !.scale = sc, !.dur = du, !.mv = m] :
             o \in {<<"mdhd", "hdlr", "minf">>, <<"minf", "hdlr", "mdhd">>, <<"hdlr", "minf", "free", "mdhd">>, <<"free", "mdhd", "minf", "hdlr">>}, v \in 0..2, s \in {0, 1}, fr \in {0, 1}, sc \in {B4(600), B4(48000), <<0, 152, 150, 128>>}, du \in {Z(8), B8(B4(90000)), B8(<<255, 255, 255, 240>>)}, m \in {0, 1}}
    \cup {[Mp4Base EXCEPT !.dur = du, !.mv = 1, !.scale = sc] : du \in {<<0, 0, 0, 1, 0, 0, 0, 5>>, <<0, 1, 0, 0, 0, 0, 0, 0>>}, sc \in {B4(44100), <<255, 255, 255, 255>>}}
Sv7 == {f \in [fmt : {"sv7"}, minor : {1}, frames : {B4(1), <<0, 1, 0, 0>>}, is : {0, 1}, ms : {0, 1}, band : {0, 63}, profile : {7, 10, 15}, link : {0, 1, 3}, sr : 0..3, level : {0, 65535}, tp : {0}, tg : {0}, ap : {0}, ag : {0}, gapless : {0, 1}, last : {1, 1152}, fast : {0, 1}, enc : {106}, audio : {300}] : f.gapless = 1 \/ f.last = 1}
C63 == {B4(0), B4(1), B4(44100), <<1, 255, 255, 255, 255>>, <<15, 255, 255, 255, 255, 255, 255>>}
Sv8 == {f \in [fmt : {"sv8"}, count : C63, silence : {B4(0), B4(1), B4(44099)}, vw : {1, 6}, sr : 0..3, band : {1, 32}, ch : {1, 16}, ms : {0, 1}, blk : {0, 7}, tg : {20111}, tp : {65535}, ag : {3}, ap : {257}, prof : {0, 80, 127}, pns : {1}, minor : {30}, audio : {300}, more : {0, 1},
         order : {<<"SH", "RG", "EI", "SO", "AP", "AP", "SE">>}] : Cmp(Nb(f.silence), Nb(f.count)) <= 0}
Sv5 == [fmt : {"sv5"}, ver : 4..6, ms : {0, 1}, band : {0, 20, 31}, frames : {B4(0), B4(1), B4(2), <<0, 0, 255, 255>>}, audio : {500}]
Set == CASE Fmt = "mpeg" -> Mpeg [] Fmt = "aac" -> Aac [] Fmt = "flac" -> Flac [] Fmt = "wav" -> Wav [] Fmt = "aiff" -> Aiff [] Fmt = "ape" -> Mac [] Fmt = "wv" -> Wv [] Fmt = "vorbis" -> Vorbis [] Fmt = "opus" -> Opus
         [] Fmt = "speex" -> Speex [] Fmt = "mp4" -> Mp4 [] Fmt = "sv7" -> Sv7 [] Fmt = "sv8" -> Sv8 [] Fmt = "sv5" -> Sv5 [] OTHER -> {}
F == IF Fmt = "file" THEN Fs[i] ELSE i
Init == done = FALSE /\ i \in (IF Fmt = "file" THEN DOMAIN Fs ELSE Set)
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ PrintT("SCN " \o ToJson([f |-> F, segs |-> File(F)]))
Spec == Init /\ [][Next]_<<i, done>>
(* the encodings have the sizes the formats demand *)
Sizes ==
    CASE F.fmt = "aac" -> Len(AacHead(F, 200)) = 7
      [] F.fmt = "flac" -> Len(StreamInfo(F)) = 34
      [] F.fmt = "aiff" -> Len(F80(F.rate, F.half)) = 10
      [] F.fmt = "vorbis" -> Len(VorbisId(F)) = 30
      [] F.fmt = "speex" -> Len(SpeexId(F)) = 80
      [] F.fmt = "opus" -> Len(OpusId(F)) = IF F.fam = 0 THEN 19 ELSE 21 + F.ch
      [] F.fmt = "mp4" -> LET b == BitsOf(Asc(F)) IN F.asc = 1 => IF F.aot < 31 THEN SubSeq(b, 1, 5) = Bits(F.aot, 5) ELSE SubSeq(b, 6, 11) = Bits(F.aot - 32, 6)
      [] OTHER -> TRUE
(* and the reported values are what simple arithmetic gives where it fits in 31 bits *)
Arithmetic == Cmp(Mul(N(44100), N(1000)), N(44100000)) = 0 /\ Cmp(Add(N(255), N(1)), N(256)) = 0 /\ SubSat(N(65536), N(1)) = N(65535)
=============================================================================
