------------------------------ MODULE ValuesMC ------------------------------
(* Every value format is a machine which is fed its text (or bytes) one piece at
   a time; TLC walks all inputs within the bounds. Each format has a canonical
   continuation; Dev bounds how often an input leaves it. *)
EXTENDS Values, Json
CONSTANTS Kind, Depth, Dev
VARIABLES x, dev, len
vars == <<x, dev, len>>
YEARS == <<"2024", "0000", "9999", "204", " 204", "20 4", "20-4", "2a24", "    ", "1">>
NUMS == <<"06", "6", " 6", "00", "99", "  ", "x1", "1x", "0", "1 ">>
SEPTXT == <<"-", ".", ":", "T", " ", "">>
Code == [c \in CharSet("0123456789-.:T xaZ") |-> CASE c \in Digits -> 48 + DigitVal[c] [] c = "-" -> 45 [] c = "." -> 46 [] c = ":" -> 58 [] c = "T" -> 84
                                              [] c = " " -> 32 [] c = "x" -> 120 [] c = "a" -> 97 [] OTHER -> 90]
Codes(s) == [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]
CanonSep(k) == CASE k \in {2, 3} -> "-" [] k = 4 -> "T" [] OTHER -> ":"
(* timestamps: fields one after the other, in the separated or the compact form *)
TsInit == \E lead \in {<<>>, <<32>>, <<9, 32>>} : \E c \in BOOLEAN : \E y \in Range(YEARS) :
    /\ x = [b |-> lead \o Codes(y), c |-> c] /\ len = 1
    /\ dev = TF(lead # <<>>) + TF(y # "2024") /\ dev <= Dev
TsNext ==
    \/ /\ len < 6
       /\ \E s \in Range(SEPTXT) : \E n \in Range(NUMS) :
          /\ dev' = dev + TF(s # IF x.c /\ len + 1 # 4 THEN "" ELSE CanonSep(len + 1)) + TF(n # "06") /\ dev' <= Dev
          /\ x' = [x EXCEPT !.b = @ \o Codes(s) \o Codes(n)] /\ len' = len + 1
    \/ /\ len < 7 /\ \E s \in {"Z", " ", "-", "T", ":"} : x' = [x EXCEPT !.b = @ \o Codes(s)]
       /\ dev' = dev + 1 /\ dev' <= Dev + 1 /\ len' = 7
TsInv == LET s == ParseTs(x.b, "strict") b == ParseTs(x.b, "best") IN
    /\ s.r = "some" => b = s /\ ParseTs(PrintTs(Six(s.f)), "strict") = s
    /\ b.r = "some" => ParseTs(PrintTs(Six(b.f)), "strict") = b /\ b.f[1] \in 0..9999 /\ \A k \in 2..Len(b.f) : b.f[k] \in 0..99
(* timestamps given field by field *)
TsvInit == /\ \E y \in {0, 5, 999, 2024, 9999, 10000, 65535} : x = [f |-> <<<<y>>>>] /\ dev = TF(y # 2024)
           /\ len = 1
TsvNext == /\ len < 6
           /\ \E v \in {<<1>>, <<>>, <<0>>, <<9>>, <<MAXF[len + 1]>>, <<MAXF[len + 1] + 1>>, <<255>>} :
              /\ x' = [f |-> Append(x.f, v)] /\ dev' = dev + TF(v # <<1>>) /\ dev' <= Dev + 1
           /\ len' = len + 1
TsvInv == len = 6 => (TsStorable(x.f) =>
    LET p == ParseTs(PrintTs(x.f), "strict") IN p.r = "some" /\ Six(p.f) = x.f)
(* numbers, byte by byte *)
SynchInit == x = [b |-> <<>>] /\ dev = 0 /\ len = 0
SynchNext == /\ len < Depth /\ len' = len + 1 /\ UNCHANGED dev /\ (len > 0 => x.b[1] \in {0, 1, 15, 16, 64, 127, 128, 255})
             /\ \E v \in (IF len = 0 THEN 0..255 ELSE {0, 1, 15, 16, 64, 127, 128, 255}) : x' = [b |-> Append(x.b, v)]
SynchInv == len > 0 => (SynchFits(x.b) => Unsynch(Synch(x.b)) = x.b)
                       /\ Unsynch(Widen(x.b)) = Zeros(len) \o x.b
                       /\ \A i \in 1..len : Widen(x.b)[i] < 128
(* streams under every schedule of short reads. The machine keeps a buffer of what
   it fetched and whether the last byte it passed on was an FF. *)
RECURSIVE Deliver(_, _, _, _)
Deliver(b, ff, sched, k) ==      \* sched: how much each fetch yields
    IF b = <<>> THEN <<>>
    ELSE LET n == Min2(sched[((k - 1) % Len(sched)) + 1], Len(b))
             chunk == Keep(b, 1, n) IN
         IF ff /\ chunk[1] = 0 THEN (IF n = 1 THEN Deliver(Tail(b), FALSE, sched, k + 1) ELSE Deliver(Tail(b), FALSE, <<n - 1>> \o sched, 1))
         ELSE <<chunk[1]>> \o (IF n = 1 THEN Deliver(Tail(b), chunk[1] = 255, sched, k + 1) ELSE Deliver(Tail(b), chunk[1] = 255, <<n - 1>> \o sched, 1))
SCHEDS == {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<9000>>}
StreamInit == /\ x \in [b : {<<>>}, fill : {0, 8190, 8191, 8192}, inner : SCHEDS, outer : SCHEDS, int : {0, 1, 2, 3}]
              /\ len = 0 /\ dev = TF(x.fill # 0) + TF(x.inner # <<9000>>) + TF(x.outer # <<9000>>) + TF(x.int # 0) /\ dev <= Dev
StreamNext == /\ len < Depth /\ \E v \in {255, 0, 224, 21} : x' = [x EXCEPT !.b = Append(@, v)]
              /\ len' = len + 1 /\ UNCHANGED dev
StreamInv == /\ Unstuff(Stuff(x.b)) = x.b
             /\ Deliver(x.b, FALSE, x.inner, 1) = Unstuff(x.b)
(* text encodings *)
POINTS == {65, 233, 127, 128, 255, 256, 2047, 2048, 8364, 55295, 57344, 65533, 65536, 1114111, 0, 65279, 65534}
EncInit == /\ x \in [t : {<<>>}, e : 0..3, v23 : BOOLEAN, lossy : BOOLEAN] /\ len = 0 /\ dev = 0
EncNext == /\ len < Depth /\ len' = len + 1 /\ UNCHANGED dev /\ \E p \in POINTS : x' = [x EXCEPT !.t = Append(@, p)]
EncInv == LET t == x.t e == EncFor(x.e, x.v23) IN
    \A b \in Encode(t, e) : LET d == Decode(b, e) IN
        /\ d.ok
        /\ (e # 0 /\ ~ \E i \in DOMAIN t : t[i] \in {65279, 65534}) => d.t = t
        /\ (e = 0 /\ \A i \in DOMAIN t : t[i] < 256) => d.t = t
UNITS == {0, 65, 195, 169, 226, 130, 172, 240, 159, 128, 216, 222, 255, 254, 237, 160, 244, 144, 192}
DecInit == /\ x \in [b : {<<>>}, e : 0..4, ver : {2, 3, 4}] /\ len = 0 /\ dev = 0
DecNext == /\ len < Depth /\ len' = len + 1 /\ UNCHANGED dev /\ \E v \in UNITS : x' = [x EXCEPT !.b = Append(@, v)]
DecInv == x.e \in 0..3 => LET d == Decode(x.b, x.e) IN
    \* what decodes encodes back to the same bytes (byte order marks aside)
    (d.ok /\ x.e # 1 /\ ~ \E i \in DOMAIN Pairs(x.b, FALSE) : Pairs(x.b, FALSE)[i] \in {65279, 65534})
        => (x.e = 2 /\ Len(x.b) % 2 = 1) \/ x.b \in Encode(d.t, x.e)
(* code tables *)
NumInit == /\ dev = 0 /\ len = 0 /\ \E v \in (CASE Kind = "byte" -> 0..255 [] Kind = "tflags" -> 0..7 [] OTHER -> 0..65535) : x = [v |-> v]
(* texts made of pieces *)
PIECES == CASE Kind = "mime" -> {"image/", "IMAGE/", "png", "jpeg", "JPG", "jpg", "tiff", "bmp", "Gif", "gif", "x-", " ", "-->", "text/plain"}
            [] Kind = "fid" -> {"A", "Z", "a", "0", "9", "_", " ", "T", "."}
            [] Kind = "genre" -> {"(", ")", "~", "17", "RX", "CR", "191", "192", "9999", "x y", "0"}
            [] Kind = "rating" -> {"MusicBee", "|", "1", "5", "6", "0", "x@y", " ", "18446744073709551615", "18446744073709551616"}
            [] Kind = "ext" -> {"m", "p", "3", "4", "a", "A", "i", "f", "c", "w", "v", "W", "e", "o", "g", "+", "s", "x", "u", "l", "k"}
            [] OTHER -> {}
WHOLE == CASE Kind = "ext" -> DOMAIN EXTS \cup {"MP3", "Flac", "OPUS", "wavpack", "mp4 ", "ogx", "oga", "m4", "mpeg"} [] OTHER -> {}
TextInit == /\ x \in [s : {""} \cup WHOLE] /\ dev = 0 /\ len = IF x.s = "" THEN 0 ELSE Depth
TextNext == /\ len < Depth /\ len' = len + 1 /\ UNCHANGED dev /\ \E p \in PIECES : x' = [s |-> x.s \o p]
TextInv == Kind = "rating" => LET w == RatingOf(x.s) IN w # <<>> => RatingOf(w[1] \o "|" \o w[2] \o "|" \o w[3]) = w
ScrInit == x = [b |-> <<>>] /\ len = 0 /\ dev = 0
ScrNext == /\ len < Depth /\ len' = len + 1 /\ UNCHANGED dev /\ \E v \in {0, 255, 17} : x' = [b |-> Append(x.b, v)]
\* the register runs through all of its states before it repeats
ScrInv == len = Depth => Key(127) = Key(0) /\ \A i, j \in 0..126 : Key(i) = Key(j) => i = j
SupInit == \E f \in DOMAIN PRIMARY : x = [f |-> f] /\ len = 0 /\ dev = 0

Init == CASE Kind = "ts" -> TsInit [] Kind = "tsv" -> TsvInit [] Kind = "synch" -> SynchInit [] Kind = "stream" -> StreamInit [] Kind = "enc" -> EncInit
          [] Kind = "dec" -> DecInit [] Kind \in {"byte", "word", "tflags"} -> NumInit [] Kind = "scramble" -> ScrInit [] Kind = "support" -> SupInit [] OTHER -> TextInit
Step == CASE Kind = "ts" -> TsNext [] Kind = "tsv" -> TsvNext [] Kind = "synch" -> SynchNext [] Kind = "stream" -> StreamNext [] Kind = "enc" -> EncNext
          [] Kind = "dec" -> DecNext [] Kind = "scramble" -> ScrNext [] Kind \in {"byte", "word", "tflags", "support"} -> FALSE /\ UNCHANGED vars [] OTHER -> TextNext
Spec == Init /\ [][Step]_vars
Out == CASE Kind = "tsv" /\ len < 6 -> TRUE [] Kind = "synch" /\ ~ len \in {1, 2, 4} -> TRUE
         [] OTHER -> PrintT("SCN " \o ToJson([a |-> Kind, x |-> x]))
Inv == /\ (CASE Kind = "ts" -> TsInv [] Kind = "tsv" -> TsvInv [] Kind = "synch" -> SynchInv [] Kind = "stream" -> StreamInv [] Kind = "enc" -> EncInv
             [] Kind = "dec" -> DecInv [] Kind = "scramble" -> ScrInv [] OTHER -> TextInv)
       /\ StarsSurvive
       /\ Out
=============================================================================
