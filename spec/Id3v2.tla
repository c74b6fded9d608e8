------------------------------- MODULE Id3v2 -------------------------------
(* The ID3v2 standards (2.2, 2.3, 2.4) as a decoder from bytes to frames, an encoder from frames to bytes,   *)
(* and the frames a written tag has to hold.  Text is a sequence of code points, data a sequence of bytes.   *)
(*   frame: [id, fl, k, e, s, n, b, c]  kind, encoding (-1: none), strings, numbers, data, embedded frames    *)
EXTENDS Common, Bitwise

ALNUM == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Code(c) == LET i == CHOOSE i \in 1..36 : SubSeq(ALNUM, i, i) = c IN IF i <= 10 THEN 47 + i ELSE 54 + i
CodeOf == [c \in {SubSeq(ALNUM, i, i) : i \in 1..36} |-> Code(c)]
IdBytes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
IsIdC(x) == x \in 48..57 \/ x \in 65..90
CharOf(x) == IF x \in 48..57 THEN SubSeq(ALNUM, x - 47, x - 47) ELSE SubSeq(ALNUM, x - 54, x - 54)
RECURSIVE IdStr(_)
IdStr(b) == IF b = <<>> THEN "" ELSE CharOf(b[1]) \o IdStr(Tail(b))

Sub(b, i, j) == SubSeq(b, i, j)
From(b, i) == SubSeq(b, i, Len(b))
U16(b, i) == b[i] * 256 + b[i + 1]
U24(b, i) == b[i] * 65536 + b[i + 1] * 256 + b[i + 2]
U32ok(b, i) == b[i] < 64
U32(b, i) == b[i] * 16777216 + U24(b, i + 1)
SynOk(b, i) == \A j \in 0..3 : b[i + j] < 128
Syn(b, i) == b[i] * 2097152 + b[i + 1] * 16384 + b[i + 2] * 128 + b[i + 3]
Bit(x, m) == (x \div m) % 2 = 1
Zeros(b) == \A i \in DOMAIN b : b[i] = 0
BE4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
BE3(n) == <<(n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Syn4(n) == <<n \div 2097152, (n \div 16384) % 128, (n \div 128) % 128, n % 128>>
Bad == [ok |-> FALSE]

(* ---- unsynchronisation *)
Resync(b) == LET idx == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : ~(i > 1 /\ b[i] = 0 /\ b[i - 1] = 255))
             IN [j \in 1..Len(idx) |-> b[idx[j]]]
RECURSIVE Unsync(_)
Unsync(b) == IF b = <<>> THEN <<>>
             ELSE IF b[1] = 255 /\ (Len(b) = 1 \/ b[2] = 0 \/ b[2] >= 224) THEN <<255, 0>> \o Unsync(Tail(b))
             ELSE <<b[1]>> \o Unsync(Tail(b))
FalseSync(b) == \E i \in 1..(Len(b) - 1) : b[i] = 255 /\ b[i + 1] >= 224

(* ---- zlib: stored blocks and the fixed codes *)
BitAt(b, p) == (b[p \div 8 + 1] \div (2 ^ (p % 8))) % 2
RECURSIVE BitsL(_, _, _), BitsM(_, _, _, _), Blocks(_, _, _), Fixed(_, _, _), CopyN(_, _, _)
BitsL(b, p, n) == IF n = 0 THEN 0 ELSE BitAt(b, p) + 2 * BitsL(b, p + 1, n - 1)
BitsM(b, p, n, acc) == IF n = 0 THEN acc ELSE BitsM(b, p + 1, n - 1, 2 * acc + BitAt(b, p))
CopyN(out, d, n) == IF n = 0 THEN out ELSE CopyN(Append(out, out[Len(out) + 1 - d]), d, n - 1)
LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenExtra == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769>>
DistExtra == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8>>
Sym(b, p) == LET x == BitsM(b, p, 7, 0) IN
    IF x <= 23 THEN <<256 + x, p + 7>>
    ELSE LET y == BitsM(b, p, 8, 0) IN
         IF y \in 48..191 THEN <<y - 48, p + 8>> ELSE IF y \in 192..199 THEN <<280 + y - 192, p + 8>>
         ELSE <<144 + BitsM(b, p, 9, 0) - 400, p + 9>>
Fixed(b, p, out) ==
    IF p + 9 > 8 * Len(b) THEN Bad
    ELSE LET s == Sym(b, p) IN
    IF s[1] < 256 THEN Fixed(b, s[2], Append(out, s[1]))
    ELSE IF s[1] = 256 THEN [ok |-> TRUE, p |-> s[2], out |-> out]
    ELSE LET i == s[1] - 256
             n == LenBase[i] + BitsL(b, s[2], LenExtra[i])
             q == s[2] + LenExtra[i]
             d == BitsM(b, q, 5, 0) + 1 IN
         IF i > 29 \/ d > 20 THEN Bad
         ELSE LET dist == DistBase[d] + BitsL(b, q + 5, DistExtra[d]) IN
              IF dist > Len(out) THEN Bad ELSE Fixed(b, q + 5 + DistExtra[d], CopyN(out, dist, n))
Blocks(b, p, out) ==
    IF p + 10 > 8 * Len(b) THEN Bad
    ELSE LET final == BitAt(b, p) ty == BitsL(b, p + 1, 2) IN
    LET r == CASE ty = 0 -> LET i == (p + 3 + 7) \div 8 + 1 IN
                            IF i + 3 > Len(b) THEN Bad
                            ELSE LET n == b[i] + 256 * b[i + 1] IN
                                 IF i + 3 + n > Len(b) THEN Bad
                                 ELSE [ok |-> TRUE, p |-> 8 * (i + 3 + n), out |-> out \o Sub(b, i + 4, i + 3 + n)]
             [] ty = 1 -> Fixed(b, p + 3, out)
             [] OTHER -> Bad          \* (dynamic codes are not modelled)
    IN IF ~r.ok THEN Bad ELSE IF final = 1 THEN [ok |-> TRUE, v |-> r.out, nx |-> (r.p + 7) \div 8 + 1] ELSE Blocks(b, r.p, r.out)
RECURSIVE Adler(_, _, _, _)
Adler(v, i, x, y) == IF i > Len(v) THEN <<y \div 256, y % 256, x \div 256, x % 256>>
                     ELSE LET x2 == (x + v[i]) % 65521 IN Adler(v, i + 1, x2, (y + x2) % 65521)
Inflate(b) == IF Len(b) < 8 \/ b[1] # 120 \/ U16(b, 1) % 31 # 0 \/ Bit(b[2], 32) THEN Bad
              ELSE LET r == Blocks(b, 16, <<>>) IN
                   IF ~r.ok \/ r.nx + 3 # Len(b) \/ From(b, r.nx) # Adler(r.v, 1, 1, 0) THEN Bad ELSE [ok |-> TRUE, v |-> r.v]
Deflate(v) == <<120, 1, 1, Len(v) % 256, Len(v) \div 256, 255 - (Len(v) % 256), 255 - (Len(v) \div 256)>> \o v \o Adler(v, 1, 1, 0)

(* ---- CRC-32 (two halves, TLC's integers are 32 bits) *)
CrcStep(w) == LET hi == w[1] lo == w[2] l2 == (hi % 2) * 32768 + lo \div 2 h2 == hi \div 2 IN
              IF lo % 2 = 1 THEN <<h2 ^^ 60856, l2 ^^ 33568>> ELSE <<h2, l2>>
RECURSIVE CrcN(_, _)
CrcN(w, n) == IF n = 0 THEN w ELSE CrcN(CrcStep(w), n - 1)
CrcTable == [x \in 0..255 |-> CrcN(<<0, x>>, 8)]
RECURSIVE CrcOf(_, _, _)
CrcOf(b, i, w) == IF i > Len(b) THEN <<65535 - w[1], 65535 - w[2]>>
                  ELSE LET t == CrcTable[(w[2] % 256) ^^ b[i]] IN
                       CrcOf(b, i + 1, <<(w[1] \div 256) ^^ t[1], ((w[1] % 256) * 256 + w[2] \div 256) ^^ t[2]>>)
Crc(b) == CrcOf(b, 1, <<65535, 65535>>)
Crc4(b) == LET w == Crc(b) IN <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
\* 35 bits synchsafe
Crc5(b) == LET w == Crc(b) IN <<w[1] \div 4096, (w[1] \div 32) % 128, (w[1] % 32) * 4 + w[2] \div 16384, (w[2] \div 128) % 128, w[2] % 128>>

(* ---- text *)
StripEnd(v) == LET n == Max2(0, Len(v)) IN
    LET k == CHOOSE k \in 0..n : (\A j \in (k + 1)..n : v[j] = 0) /\ (k = 0 \/ v[k] # 0) IN SubSeq(v, 1, k)
RECURSIVE Utf8(_, _, _), Utf16(_, _, _, _, _)
Cont(b, i, n) == i + n <= Len(b) /\ \A j \in 1..n : b[i + j] \in 128..191
Utf8(b, i, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, v |-> acc]
    ELSE LET x == b[i] IN
    IF x < 128 THEN Utf8(b, i + 1, Append(acc, x))
    ELSE IF x \in 194..223 /\ Cont(b, i, 1) THEN Utf8(b, i + 2, Append(acc, (x - 192) * 64 + b[i + 1] - 128))
    ELSE IF x \in 224..239 /\ Cont(b, i, 2) THEN
        LET c == (x - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128 IN
        IF c < 2048 \/ c \in 55296..57343 THEN Bad ELSE Utf8(b, i + 3, Append(acc, c))
    ELSE IF x \in 240..244 /\ Cont(b, i, 3) THEN
        LET c == (x - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128 IN
        IF c < 65536 \/ c > 1114111 THEN Bad ELSE Utf8(b, i + 4, Append(acc, c))
    ELSE Bad
Unit(b, i, o) == IF o = "le" THEN b[i] + 256 * b[i + 1] ELSE U16(b, i)
\* o: the byte order ("": none yet); st: at the start of a string, where a byte order mark can be
Utf16(b, i, o, st, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, v |-> acc, o |-> o]
    ELSE IF i = Len(b) THEN Bad
    ELSE IF st /\ b[i] = 255 /\ b[i + 1] = 254 THEN Utf16(b, i + 2, "le", FALSE, acc)
    ELSE IF st /\ b[i] = 254 /\ b[i + 1] = 255 THEN Utf16(b, i + 2, "be", FALSE, acc)
    ELSE IF o = "" THEN IF b[i] = 0 /\ b[i + 1] = 0 THEN Utf16(b, i + 2, o, TRUE, Append(acc, 0)) ELSE Bad
    ELSE LET u == Unit(b, i, o) IN
    IF u \in 56320..57343 THEN Bad
    ELSE IF u \in 55296..56319 THEN
        IF i + 3 > Len(b) THEN Bad
        ELSE LET w == Unit(b, i + 2, o) IN
             IF w \notin 56320..57343 THEN Bad ELSE Utf16(b, i + 4, o, FALSE, Append(acc, 65536 + (u - 55296) * 1024 + w - 56320))
    ELSE Utf16(b, i + 2, o, u = 0, Append(acc, u))
EncsOf(ver) == IF ver = 4 THEN 0..3 ELSE 0..1
Text(e, b, o) ==
    LET r == CASE e = 0 -> [ok |-> TRUE, v |-> b]
               [] e = 1 -> Utf16(b, 1, o, TRUE, <<>>)
               [] e = 2 -> Utf16(b, 1, "be", FALSE, <<>>)
               [] e = 3 -> Utf8(b, 1, <<>>)
               [] OTHER -> Bad
    IN IF ~r.ok THEN Bad ELSE [ok |-> TRUE, v |-> StripEnd(r.v), o |-> IF e = 1 THEN r.o ELSE ""]
Wd(e) == IF e \in {1, 2} THEN 2 ELSE 1
RECURSIVE TermAt(_, _, _)
TermAt(b, i, w) == IF i + w - 1 > Len(b) THEN 0 ELSE IF \A k \in 0..(w - 1) : b[i + k] = 0 THEN i ELSE TermAt(b, i + w, w)
\* the terminated string from i on
Take(e, b, i, o) ==
    LET t == TermAt(b, i, Wd(e)) IN
    IF t = 0 THEN Bad ELSE LET r == Text(e, Sub(b, i, t - 1), o) IN IF ~r.ok THEN Bad ELSE [ok |-> TRUE, v |-> r.v, o |-> r.o, nx |-> t + Wd(e)]
RECURSIVE TakeN(_, _, _, _, _)
\* n terminated strings
TakeN(e, b, i, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, s |-> acc, nx |-> i]
    ELSE LET r == Take(e, b, i, "") IN IF ~r.ok THEN Bad ELSE TakeN(e, b, r.nx, n - 1, Append(acc, r.v))
RECURSIVE TakeAll(_, _, _, _, _)
\* terminated strings up to the end (the last one may do without the terminator)
TakeAll(e, b, i, o, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, s |-> acc]
    ELSE LET t == TermAt(b, i, Wd(e)) j == IF t = 0 THEN Len(b) ELSE t - 1 r == Text(e, Sub(b, i, j), o) IN
         IF ~r.ok THEN Bad ELSE TakeAll(e, b, IF t = 0 THEN Len(b) + 1 ELSE t + Wd(e), r.o, Append(acc, r.v))

(* ---- frame contents; impl: "up" (older identifiers become ID3v2.4 ones), "keep", "std" (the standard's own kinds) *)
F0 == [k |-> "bin", e |-> 0 - 1, s |-> <<>>, n |-> <<>>, b |-> <<>>, c |-> <<>>]
Ok(f) == [ok |-> TRUE, f |-> f]
Alpha(x) == x \in 65..90 \/ x \in 97..122
Dig(x) == x \in 48..57
Num(v, i, j) == LET RECURSIVE go(_, _) go(k, a) == IF k > j THEN a ELSE go(k + 1, 10 * a + v[k] - 48) IN go(i, 0)
AllDig(v, i, j) == \A k \in i..j : Dig(v[k])
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* yyyy[-MM[-dd[THH[:mm[:ss]]]]]
Time(v) ==
    LET L == Len(v) IN
    IF ~(L \in {4, 7, 10, 13, 16, 19} /\ AllDig(v, 1, 4) /\ (L > 4 => v[5] = 45 /\ AllDig(v, 6, 7)) /\ (L > 7 => v[8] = 45 /\ AllDig(v, 9, 10))
         /\ (L > 10 => v[11] = 84 /\ AllDig(v, 12, 13)) /\ (L > 13 => v[14] = 58 /\ AllDig(v, 15, 16)) /\ (L > 16 => v[17] = 58 /\ AllDig(v, 18, 19))) THEN Bad
    ELSE LET g(i) == IF L > i - 2 THEN Num(v, i, i + 1) ELSE 0 - 1
             t == <<Num(v, 1, 4), g(6), g(9), g(12), g(15), g(18)>> IN
         IF (L > 4 => t[2] \in 1..12) /\ (L > 7 => t[3] \in 1..DaysIn(t[1], t[2])) /\ t[4] < 24 /\ t[5] < 60 /\ t[6] < 60
         THEN [ok |-> TRUE, t |-> t] ELSE Bad
TIMES == {"TDEN", "TDOR", "TDRC", "TDRL", "TDTG"}
APPLE == {"GRP1", "MVNM", "MVIN", "PCST"}
Ini(id, c) == SubSeq(id, 1, 1) = c
KindOf(id) ==
    CASE id = "APIC" -> "apic" [] id = "TXXX" -> "txxx" [] id = "WXXX" -> "wxxx" [] id = "COMM" -> "comm" [] id = "USLT" -> "uslt"
      [] id \in {"TIPL", "TMCL"} -> "kv" [] id = "UFID" -> "ufid" [] id = "RVA2" -> "rva2" [] id = "OWNE" -> "owne" [] id = "ETCO" -> "etco"
      [] id = "PRIV" -> "priv" [] id \in TIMES -> "time" [] id \in APPLE -> "text" [] Ini(id, "T") -> "text" [] Ini(id, "W") -> "url"
      [] id = "POPM" -> "popm" [] id = "CHAP" -> "chap" [] id = "CTOC" -> "ctoc" [] id = "GEOB" -> "geob" [] id = "SYLT" -> "sylt" [] id = "ATXT" -> "atxt"
      [] OTHER -> "bin"
RECURSIVE Chans(_, _, _)
Chans(b, i, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, m |-> acc]
    ELSE IF i + 3 > Len(b) \/ b[i] > 8 \/ b[i] \in DOMAIN acc THEN Bad
    ELSE LET p == (b[i + 3] + 7) \div 8 IN
         IF i + 3 + p > Len(b) THEN Bad
         ELSE Chans(b, i + 4 + p, acc @@ (b[i] :> <<b[i], b[i + 1], b[i + 2], b[i + 3]>> \o Sub(b, i + 4, i + 3 + p)))
ChansN(m) == LET RECURSIVE go(_) go(c) == IF c > 8 THEN <<>> ELSE (IF c \in DOMAIN m THEN m[c] ELSE <<>>) \o go(c + 1) IN go(0)
RECURSIVE Sylt(_, _, _, _, _, _)
Sylt(e, b, i, o, s, n) ==
    IF i > Len(b) THEN [ok |-> TRUE, s |-> s, n |-> n]
    ELSE LET r == Take(e, b, i, o) IN
         IF ~r.ok \/ r.nx + 3 > Len(b) THEN Bad ELSE Sylt(e, b, r.nx + 4, r.o, Append(s, r.v), n \o Sub(b, r.nx, r.nx + 3))
V2FMT == <<<<<<80, 78, 71>>, <<105, 109, 97, 103, 101, 47, 112, 110, 103>>>>, <<<<74, 80, 71>>, <<105, 109, 97, 103, 101, 47, 106, 112, 101, 103>>>>,
           <<<<45, 45, 62>>, <<45, 45, 62>>>>>>
Time4(b, i) == b[i] * 256 + b[i + 1]
RECURSIVE Frames(_, _, _, _)
Content(id, ver, b, impl) ==
    LET k == IF id = "IPLS" /\ impl = "std" THEN "kv" ELSE KindOf(id) e == IF b = <<>> THEN 9 ELSE b[1] L == Len(b) G(x) == [F0 EXCEPT !.k = k] IN
    LET K == [F0 EXCEPT !.k = k] KE == [K EXCEPT !.e = e] badE == e \notin EncsOf(ver) IN
    CASE id = "WFED" -> Bad      \* (not in the standard, and not one thing in practice)
      [] id = "PCST" /\ L = 4 /\ b[1] = 0 /\ b[2] = 0 /\ b[3] = 0 -> Ok([F0 EXCEPT !.b = b])
      [] k = "text" -> IF badE THEN Bad ELSE LET r == Text(e, From(b, 2), "") IN IF ~r.ok THEN Bad ELSE Ok([KE EXCEPT !.s = <<r.v>>])
      [] k = "time" -> IF badE THEN Bad
                       ELSE LET r == Text(e, From(b, 2), "") IN
                            IF ~r.ok THEN Bad ELSE LET t == Time(r.v) IN IF ~t.ok THEN Bad ELSE Ok([KE EXCEPT !.n = t.t])
      [] k \in {"txxx", "wxxx"} ->
            IF badE THEN Bad
            ELSE LET d == Take(e, b, 2, "") IN
                 IF ~d.ok THEN Bad
                 ELSE LET r == IF k = "wxxx" THEN Text(0, From(b, d.nx), "") ELSE Text(e, From(b, d.nx), d.o) IN
                      IF ~r.ok THEN Bad ELSE Ok([KE EXCEPT !.s = <<d.v, r.v>>])
      [] k \in {"comm", "uslt"} ->
            IF badE \/ L < 5 \/ ~(Alpha(b[2]) /\ Alpha(b[3]) /\ Alpha(b[4])) THEN Bad
            ELSE LET d == Take(e, b, 5, "") IN
                 IF ~d.ok THEN Bad
                 ELSE LET r == Text(e, From(b, d.nx), d.o) IN
                      IF ~r.ok \/ 0 \in {r.v[i] : i \in DOMAIN r.v} THEN Bad ELSE Ok([KE EXCEPT !.s = <<d.v, r.v>>, !.b = Sub(b, 2, 4)])
      [] k = "url" -> IF L = 0 THEN Bad ELSE LET t == TermAt(b, 1, 1) r == IF t = 0 THEN b ELSE Sub(b, 1, t - 1) IN Ok([K EXCEPT !.s = <<r>>])
      [] k = "kv" -> IF badE THEN Bad
                     ELSE LET r == TakeAll(e, b, 2, "", <<>>) IN IF ~r.ok \/ Len(r.s) % 2 = 1 \/ r.s = <<>> THEN Bad ELSE Ok([KE EXCEPT !.s = r.s])
      [] k \in {"ufid", "priv"} ->
            LET d == Take(0, b, 1, "") IN
            IF ~d.ok \/ (k = "ufid" /\ (d.v = <<>> \/ L - d.nx + 1 > 64)) THEN Bad ELSE Ok([K EXCEPT !.s = <<d.v>>, !.b = From(b, d.nx)])
      [] k = "rva2" -> LET d == Take(0, b, 1, "") IN
                       IF ~d.ok THEN Bad ELSE LET m == Chans(b, d.nx, <<>>) IN IF ~m.ok THEN Bad ELSE Ok([K EXCEPT !.s = <<d.v>>, !.n = ChansN(m.m)])
      [] k = "owne" ->
            IF badE THEN Bad
            ELSE LET p == Take(0, b, 2, "") IN
                 IF ~p.ok \/ p.nx + 7 > L \/ ~(\A i \in p.nx..Min2(L, p.nx + 7) : Dig(b[i])) THEN Bad
                 ELSE LET r == Text(e, From(b, p.nx + 8), "") IN IF ~r.ok THEN Bad ELSE Ok([KE EXCEPT !.s = <<p.v, Sub(b, p.nx, p.nx + 7), r.v>>])
      [] k = "etco" ->
            IF L % 5 # 1 \/ b[1] \notin 1..2 THEN Bad
            ELSE LET m == L \div 5 ty(i) == b[5 * i - 3] tm(i) == Sub(b, 5 * i - 2, 5 * i + 1) IN
                 IF (\E i \in 1..m : ty(i) \notin (0..22) \cup (224..239) \cup {253, 254})
                    \/ (\E i \in 1..(m - 1) : LET x == tm(i) y == tm(i + 1) IN ~(\E j \in 1..4 : x[j] < y[j] /\ \A h \in 1..(j - 1) : x[h] = y[h])) THEN Bad
                 ELSE Ok([K EXCEPT !.n = b])
      [] k = "popm" ->
            LET d == Take(0, b, 1, "") IN
            IF ~d.ok \/ d.nx > L \/ L - d.nx > 8 \/ L - d.nx \in 1..3 THEN Bad
            ELSE Ok([K EXCEPT !.s = <<d.v>>, !.n = <<b[d.nx]>>, !.b = [i \in 1..(8 - L + d.nx) |-> 0] \o From(b, d.nx + 1)])
      [] k = "apic" ->
            IF badE \/ L < 6 THEN Bad
            ELSE LET m == IF ver = 2 THEN (LET h == SelectSeq(V2FMT, LAMBDA p : p[1] = Sub(b, 2, 4)) IN IF h = <<>> THEN Bad ELSE [ok |-> TRUE, v |-> h[1][2], nx |-> 5])
                          ELSE Take(0, b, 2, "") IN
                 IF ~m.ok \/ m.nx > L \/ b[m.nx] > 20 THEN Bad
                 ELSE LET d == Take(e, b, m.nx + 1, "") IN
                      IF ~d.ok THEN Bad ELSE Ok([KE EXCEPT !.s = <<m.v, d.v>>, !.n = <<b[m.nx]>>, !.b = From(b, d.nx)])
      [] k = "geob" ->
            IF badE THEN Bad
            ELSE LET m == Take(0, b, 2, "") IN
                 IF ~m.ok THEN Bad
                 ELSE LET d == TakeN(e, b, m.nx, 2, <<>>) IN IF ~d.ok THEN Bad ELSE Ok([KE EXCEPT !.s = <<m.v>> \o d.s, !.b = From(b, d.nx)])
      [] k = "sylt" ->
            IF badE \/ L < 7 \/ ~(Alpha(b[2]) /\ Alpha(b[3]) /\ Alpha(b[4])) \/ b[5] \notin 1..2 \/ b[6] > 8 THEN Bad
            ELSE LET d == Take(e, b, 7, "") IN
                 IF ~d.ok THEN Bad
                 ELSE LET r == Sylt(e, b, d.nx, d.o, <<d.v>>, <<b[5], b[6]>>) IN IF ~r.ok THEN Bad ELSE Ok([KE EXCEPT !.s = r.s, !.n = r.n, !.b = Sub(b, 2, 4)])
      [] k = "atxt" ->
            IF badE THEN Bad
            ELSE LET m == Take(0, b, 2, "") IN
                 IF ~m.ok \/ m.nx > L \/ b[m.nx] # 0 THEN Bad
                 ELSE LET d == Take(e, b, m.nx + 1, "") IN IF ~d.ok THEN Bad ELSE Ok([KE EXCEPT !.s = <<m.v, d.v>>, !.n = <<b[m.nx]>>, !.b = From(b, d.nx)])
      [] k \in {"chap", "ctoc"} ->
            LET d == Take(0, b, 1, "") IN
            IF ver = 2 \/ ~d.ok \/ d.v = <<>> THEN Bad
            ELSE LET m == IF k = "chap" THEN (IF d.nx + 15 > L THEN Bad ELSE [ok |-> TRUE, s |-> <<>>, b |-> Sub(b, d.nx, d.nx + 15), n |-> <<>>, nx |-> d.nx + 16])
                          ELSE IF d.nx + 1 > L \/ b[d.nx] > 3 THEN Bad
                          ELSE LET r == TakeN(0, b, d.nx + 2, b[d.nx + 1], <<>>) IN IF ~r.ok THEN Bad ELSE [ok |-> TRUE, s |-> r.s, b |-> <<>>, n |-> <<b[d.nx]>>, nx |-> r.nx] IN
                 IF ~m.ok THEN Bad
                 ELSE LET c == Frames(From(b, m.nx), ver, FALSE, impl) IN
                      IF ~c.ok \/ c.pad > 0 THEN Bad ELSE Ok([K EXCEPT !.s = <<d.v>> \o m.s, !.n = m.n, !.b = m.b, !.c = c.fs])
      [] OTHER -> Ok([F0 EXCEPT !.b = b])

(* ---- frame headers *)
V2IDS == {<<"BUF", "RBUF">>, <<"CNT", "PCNT">>, <<"COM", "COMM">>, <<"CRA", "AENC">>, <<"ETC", "ETCO">>, <<"GEO", "GEOB">>, <<"IPL", "TIPL">>, <<"MCI", "MCDI">>,
    <<"MLL", "MLLT">>, <<"PIC", "APIC">>, <<"POP", "POPM">>, <<"REV", "RVRB">>, <<"SLT", "SYLT">>, <<"STC", "SYTC">>, <<"TAL", "TALB">>, <<"TBP", "TBPM">>,
    <<"TCM", "TCOM">>, <<"TCO", "TCON">>, <<"TCR", "TCOP">>, <<"TDY", "TDLY">>, <<"TEN", "TENC">>, <<"TFT", "TFLT">>, <<"TKE", "TKEY">>, <<"TLA", "TLAN">>,
    <<"TLE", "TLEN">>, <<"TMT", "TMED">>, <<"TOA", "TOPE">>, <<"TOF", "TOFN">>, <<"TOL", "TOLY">>, <<"TOR", "TDOR">>, <<"TOT", "TOAL">>, <<"TP1", "TPE1">>,
    <<"TP2", "TPE2">>, <<"TP3", "TPE3">>, <<"TP4", "TPE4">>, <<"TPA", "TPOS">>, <<"TPB", "TPUB">>, <<"TRC", "TSRC">>, <<"TRK", "TRCK">>, <<"TSS", "TSSE">>,
    <<"TT1", "TIT1">>, <<"TT2", "TIT2">>, <<"TT3", "TIT3">>, <<"TXT", "TEXT">>, <<"TXX", "TXXX">>, <<"TYE", "TDRC">>, <<"UFI", "UFID">>, <<"ULT", "USLT">>,
    <<"WAF", "WOAF">>, <<"WAR", "WOAR">>, <<"WAS", "WOAS">>, <<"WCM", "WCOM">>, <<"WCP", "WCOP">>, <<"WPB", "WPUB">>, <<"WXX", "WXXX">>,
    \* iTunes
    <<"TCP", "TCMP">>, <<"TSA", "TSOA">>, <<"TSC", "TSOC">>, <<"TSP", "TSOP">>, <<"TST", "TSOT">>, <<"TS2", "TSO2">>, <<"PCS", "PCST">>, <<"TCT", "TCAT">>,
    <<"TDS", "TDES">>, <<"TID", "TGID">>, <<"WFD", "WFED">>, <<"MVI", "MVIN">>, <<"MVN", "MVNM">>, <<"GP1", "GRP1">>, <<"TDR", "TDRL">>, <<"TRD", "TDRC">>}
V2Up == [x \in {p[1] : p \in V2IDS} |-> LET p == CHOOSE p \in V2IDS : p[1] = x IN p[2]]
V3Up == ("TORY" :> "TDOR") @@ ("TYER" :> "TDRC") @@ ("IPLS" :> "TIPL")
\* without an equivalent, so the content is not judged
Up(ver, id, impl) == IF ver = 2 THEN IF id \in DOMAIN V2Up THEN V2Up[id] ELSE id
                     ELSE IF ver = 3 /\ impl = "up" /\ id \in DOMAIN V3Up THEN V3Up[id] ELSE id
Fl0 == [tap |-> FALSE, fap |-> FALSE, ro |-> FALSE, g |-> 0 - 1, m |-> 0 - 1, z |-> FALSE, u |-> FALSE, d |-> 0 - 1]
\* the flags, the number of bytes they add, and the values of those
Flags(ver, f, b, i) ==
    LET at(j) == IF j <= Len(b) THEN b[j] ELSE 0 IN
    CASE ver = 2 -> [ok |-> TRUE, fl |-> Fl0, nx |-> i]
      [] ver = 3 ->
           LET z == Bit(f, 128) m == Bit(f, 64) g == Bit(f, 32) p == i + (IF z THEN 4 ELSE 0) q == p + (IF m THEN 1 ELSE 0) IN
           IF f % 32 # 0 \/ (f \div 256) % 32 # 0 \/ (z /\ (i + 3 > Len(b) \/ at(i) > 63)) THEN Bad
           ELSE [ok |-> TRUE, fl |-> [tap |-> Bit(f, 32768), fap |-> Bit(f, 16384), ro |-> Bit(f, 8192), z |-> z, m |-> IF m THEN at(p) ELSE 0 - 1,
                                      g |-> IF g THEN at(q) ELSE 0 - 1, u |-> FALSE, d |-> IF z THEN U32(b, i) ELSE 0 - 1], nx |-> q + (IF g THEN 1 ELSE 0)]
      [] OTHER ->
           LET g == Bit(f, 64) z == Bit(f, 8) m == Bit(f, 4) u == Bit(f, 2) d == Bit(f, 1) p == i + (IF g THEN 1 ELSE 0) q == p + (IF m THEN 1 ELSE 0) IN
           IF Bit(f, 128) \/ Bit(f, 32) \/ Bit(f, 16) \/ f \div 32768 = 1 \/ (f \div 256) % 16 # 0 \/ (z /\ ~d) \/ (d /\ (q + 3 > Len(b) \/ ~SynOk(b, Min2(q, Len(b) - 3)))) THEN Bad
           ELSE [ok |-> TRUE, fl |-> [tap |-> Bit(f, 16384), fap |-> Bit(f, 8192), ro |-> Bit(f, 4096), g |-> IF g THEN at(i) ELSE 0 - 1, z |-> z,
                                      m |-> IF m THEN at(p) ELSE 0 - 1, u |-> u, d |-> IF d THEN Syn(b, q) ELSE 0 - 1], nx |-> q + (IF d THEN 4 ELSE 0)]
HLen(ver) == IF ver = 2 THEN 6 ELSE 10
ILen(ver) == IF ver = 2 THEN 3 ELSE 4
\* one frame at the start of b
Frame1(b, ver, tagu, impl) ==
    LET h == HLen(ver) IN
    IF Len(b) < h \/ ~(\A i \in 1..ILen(ver) : IsIdC(b[i])) \/ (ver = 3 /\ ~U32ok(b, 5)) \/ (ver = 4 /\ ~SynOk(b, 5)) THEN Bad
    ELSE LET id == Up(ver, IdStr(Sub(b, 1, ILen(ver))), impl)
             size == IF ver = 2 THEN U24(b, 4) ELSE IF ver = 3 THEN U32(b, 5) ELSE Syn(b, 5) IN
    IF size = 0 \/ h + size > Len(b) THEN Bad
    ELSE LET body == Sub(b, h + 1, h + size) fl == Flags(ver, IF ver = 2 THEN 0 ELSE U16(b, 9), body, 1) IN
    IF ~fl.ok THEN Bad
    ELSE IF fl.nx > size \/ (fl.fl.m >= 0 /\ (fl.fl.m <= 128 \/ (ver = 4 /\ fl.fl.d <= 0))) \/ (tagu /\ ver = 4 /\ ~fl.fl.u) THEN Bad
    ELSE LET raw == From(body, fl.nx)
             c1 == IF fl.fl.u THEN Resync(raw) ELSE raw IN
    IF fl.fl.u /\ FalseSync(raw) THEN Bad
    ELSE IF fl.fl.m >= 0 THEN [ok |-> TRUE, f |-> [id |-> id, fl |-> fl.fl] @@ [F0 EXCEPT !.b = c1], nx |-> h + size + 1]
    ELSE LET c2 == IF fl.fl.z THEN Inflate(c1) ELSE [ok |-> TRUE, v |-> c1] IN
    IF ~c2.ok THEN Bad
    ELSE IF (fl.fl.d >= 0 /\ fl.fl.d # Len(c2.v)) \/ c2.v = <<>> THEN Bad
    ELSE LET c == Content(id, ver, c2.v, impl) IN
         IF ~c.ok THEN Bad ELSE [ok |-> TRUE, f |-> [id |-> id, fl |-> fl.fl] @@ c.f, nx |-> h + size + 1]
\* frames up to the end or the padding
Frames(b, ver, tagu, impl) ==
    IF b = <<>> THEN [ok |-> TRUE, fs |-> <<>>, pad |-> 0]
    ELSE IF b[1] = 0 THEN IF Zeros(b) THEN [ok |-> TRUE, fs |-> <<>>, pad |-> Len(b)] ELSE Bad
    ELSE LET f == Frame1(b, ver, tagu, impl) IN
         IF ~f.ok THEN Bad
         ELSE LET r == Frames(From(b, f.nx), ver, tagu, impl) IN
              IF ~r.ok THEN Bad ELSE [ok |-> TRUE, fs |-> <<f.f>> \o r.fs, pad |-> r.pad]

(* ---- the tag *)
\* the extended header: its length, and what it says
Ext3(b) == IF Len(b) < 10 \/ ~U32ok(b, 1) THEN Bad
           ELSE LET n == U32(b, 1) f == U16(b, 5) crc == Bit(f, 32768) IN
                IF n # (IF crc THEN 10 ELSE 6) \/ f % 32768 # 0 \/ Len(b) < n + 4 \/ ~U32ok(b, 7) THEN Bad
                ELSE [ok |-> TRUE, len |-> n + 4, crc |-> IF crc THEN Sub(b, 11, 14) ELSE <<>>, pad |-> U32(b, 7), res |-> 0 - 1, upd |-> FALSE]
Ext4(b) == IF Len(b) < 6 \/ ~SynOk(b, 1) THEN Bad
           ELSE LET n == Syn(b, 1) f == b[6] u == Bit(f, 64) c == Bit(f, 32) r == Bit(f, 16)
                    p == 7 + (IF u THEN 1 ELSE 0) q == p + (IF c THEN 6 ELSE 0) e == q + (IF r THEN 2 ELSE 0) IN
                IF n < 6 \/ b[5] # 1 \/ f >= 128 \/ f % 16 # 0 \/ e # n + 1 \/ Len(b) < n THEN Bad
                ELSE IF (u /\ b[7] # 0) \/ (c /\ (b[p] # 5 \/ \E i \in 1..5 : b[p + i] > 127)) \/ (r /\ b[q] # 1) THEN Bad
                ELSE [ok |-> TRUE, len |-> n, crc |-> IF c THEN Sub(b, p + 1, p + 5) ELSE <<>>, pad |-> 0 - 1, res |-> IF r THEN b[q + 1] ELSE 0 - 1, upd |-> u]
NoExt == [ok |-> TRUE, len |-> 0, crc |-> <<>>, pad |-> 0 - 1, res |-> 0 - 1, upd |-> FALSE]
\* dates of ID3v2.3 become one timestamp
Txt(fs, id) == LET h == SelectSeq(fs, LAMBDA f : f.id = id /\ f.k = "text") IN IF h = <<>> THEN <<>> ELSE h[1].s[1]
HHMM(v) == Len(v) = 4 /\ AllDig(v, 1, 4)
Merge(fs) ==
    LET y == SelectSeq(fs, LAMBDA f : f.id = "TDRC" /\ f.k = "time") IN
    IF y = <<>> THEN [ok |-> TRUE, fs |-> fs]
    ELSE LET d == Txt(fs, "TDAT") t == Txt(fs, "TIME") year == y[1].n[1]
             dok == HHMM(d) /\ Num(d, 3, 4) \in 1..12 /\ Num(d, 1, 2) \in 1..DaysIn(year, Num(d, 3, 4))
             tok == HHMM(t) /\ Num(t, 1, 2) < 24 /\ Num(t, 3, 4) < 60 IN
         IF y[1].n[2] # 0 - 1     \* not a year, but a whole timestamp: kept as it is
         THEN [ok |-> TRUE, fs |-> Append(SelectSeq(fs, LAMBDA f : f.id # "TDRC"), y[1])]
         ELSE IF (Len(d) = 4 /\ ~dok) \/ (Len(t) = 4 /\ ~tok) THEN Bad     \* not ID3v2.3 dates
         ELSE LET ud == Len(d) = 4 ut == ud /\ Len(t) = 4     \* what is no date (or time) at all stays what it is
                  n == IF ~ud THEN <<year, 0 - 1, 0 - 1, 0 - 1, 0 - 1, 0 - 1>>
                       ELSE IF ~ut THEN <<year, Num(d, 3, 4), Num(d, 1, 2), 0 - 1, 0 - 1, 0 - 1>>
                       ELSE <<year, Num(d, 3, 4), Num(d, 1, 2), Num(t, 1, 2), Num(t, 3, 4), 0 - 1>> IN
              [ok |-> TRUE, fs |-> Append(SelectSeq(fs, LAMBDA f : ~(f.id = "TDRC" \/ (f.id = "TDAT" /\ ud) \/ (f.id = "TIME" /\ ut))),
                                          [y[1] EXCEPT !.n = n, !.fl = Fl0])]
\* the tag at the start of b: the frames, and everything the writer must get right
Decode(b, impl) ==
    IF Len(b) < 10 THEN Bad
    ELSE LET ver == b[4] fl == b[6] IN
    IF Sub(b, 1, 3) # <<73, 68, 51>> \/ ver \notin 2..4 \/ b[5] # 0 \/ ~SynOk(b, 7) THEN Bad
    ELSE IF fl % (IF ver = 2 THEN 128 ELSE IF ver = 3 THEN 32 ELSE 16) # 0 THEN Bad
    ELSE LET size == Syn(b, 7) u == Bit(fl, 128) ext == ver > 2 /\ Bit(fl, 64) foot == ver = 4 /\ Bit(fl, 16)
             total == 10 + size + (IF foot THEN 10 ELSE 0) IN
    IF total > Len(b) THEN Bad
    ELSE LET raw == Sub(b, 11, 10 + size) all == IF u /\ ver < 4 THEN Resync(raw) ELSE raw
             x == IF ~ext THEN NoExt ELSE IF ver = 3 THEN Ext3(all) ELSE Ext4(all) IN
    IF ~x.ok \/ (u /\ FalseSync(raw)) \/ (foot /\ Sub(b, 11 + size, total) # <<51, 68, 73>> \o Sub(b, 4, 10)) THEN Bad
    ELSE LET body == From(all, x.len + 1) fr == Frames(body, ver, u, impl) IN
    IF ~fr.ok \/ fr.fs = <<>> THEN Bad
    ELSE IF (foot /\ fr.pad > 0) \/ (x.pad >= 0 /\ x.pad # fr.pad) THEN Bad
    ELSE LET data == Sub(body, 1, Len(body) - fr.pad)
             crcok == x.crc = <<>> \/ (ver = 3 /\ x.crc = Crc4(data)) \/ (ver = 4 /\ x.crc \in {Crc5(body), Crc5(data)})
             m == IF ver = 3 /\ impl = "up" THEN Merge(fr.fs) ELSE [ok |-> TRUE, fs |-> fr.fs] IN
         IF ~m.ok \/ ~crcok THEN Bad
         ELSE [ok |-> TRUE, ver |-> ver, u |-> u, exp |-> ver > 2 /\ Bit(fl, 32), foot |-> foot, crc |-> x.crc # <<>>, res |-> x.res, pad |-> fr.pad, total |-> total, fs |-> m.fs]

(* ---- frames have to differ in what the standard tells them apart by *)
KeyOf(f) == CASE f.k \in {"txxx", "wxxx"} -> <<f.id, f.s[1]>> [] f.k \in {"comm", "uslt"} -> <<f.id, f.s[1], f.b>> [] f.k = "ufid" -> <<f.id, f.s[1]>>
              [] f.k = "popm" -> <<f.id, f.s[1]>> [] f.k = "rva2" -> <<f.id, f.s[1]>> [] f.k = "apic" -> <<f.id, f.s[2]>> [] f.k \in {"chap", "ctoc"} -> <<f.id, f.s[1]>>
              [] f.k = "url" /\ f.id \in {"WCOM", "WOAR"} -> <<f.id, f.s>> [] OTHER -> <<f.id>>
Distinct(fs) == Cardinality({KeyOf(fs[i]) : i \in DOMAIN fs}) = Len(fs)

(* ---- the encoder *)
Utf16Bytes(v, o) ==
    LET two(u) == IF o = "le" THEN <<u % 256, u \div 256>> ELSE <<u \div 256, u % 256>>
        RECURSIVE go(_)
        go(i) == IF i > Len(v) THEN <<>>
                 ELSE (IF v[i] < 65536 THEN two(v[i]) ELSE LET x == v[i] - 65536 IN two(55296 + (x \div 1024)) \o two(56320 + (x % 1024))) \o go(i + 1)
    IN go(1)
Utf8Bytes(v) ==
    LET one(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
                  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
                  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
        RECURSIVE go(_)
        go(i) == IF i > Len(v) THEN <<>> ELSE one(v[i]) \o go(i + 1)
    IN go(1)
EncText(e, o, v) == CASE e = 0 -> v [] e = 1 -> (IF o = "le" THEN <<255, 254>> ELSE <<254, 255>>) \o Utf16Bytes(v, o) [] e = 2 -> Utf16Bytes(v, "be") [] e = 3 -> Utf8Bytes(v)
EncZ(e, o, v) == EncText(e, o, v) \o (IF Wd(e) = 2 THEN <<0, 0>> ELSE <<0>>)
RECURSIVE CatZ(_, _, _)
CatZ(e, o, s) == IF s = <<>> THEN <<>> ELSE EncZ(e, o, s[1]) \o CatZ(e, o, Tail(s))
Two(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
TimeText(n) == Two(n[1] \div 100) \o Two(n[1] % 100)
    \o LET sep == <<45, 45, 84, 58, 58>> RECURSIVE go(_) go(i) == IF i > 6 \/ n[i] < 0 THEN <<>> ELSE <<sep[i - 1]>> \o Two(n[i]) \o go(i + 1) IN go(2)
RECURSIVE EncFrames(_, _, _)
EncContent(f, ver, o) ==
    CASE f.k = "text" -> <<f.e>> \o EncText(f.e, o, f.s[1])
      [] f.k = "time" -> <<f.e>> \o EncText(f.e, o, TimeText(f.n))
      [] f.k = "txxx" -> <<f.e>> \o EncZ(f.e, o, f.s[1]) \o EncText(f.e, o, f.s[2])
      [] f.k = "wxxx" -> <<f.e>> \o EncZ(f.e, o, f.s[1]) \o f.s[2]
      [] f.k \in {"comm", "uslt"} -> <<f.e>> \o f.b \o EncZ(f.e, o, f.s[1]) \o EncText(f.e, o, f.s[2])
      [] f.k = "url" -> f.s[1]
      [] f.k = "kv" -> <<f.e>> \o CatZ(f.e, o, f.s)
      [] f.k \in {"ufid", "priv"} -> f.s[1] \o <<0>> \o f.b
      [] f.k = "rva2" -> f.s[1] \o <<0>> \o f.n
      [] f.k = "owne" -> <<f.e>> \o f.s[1] \o <<0>> \o f.s[2] \o EncText(f.e, o, f.s[3])
      [] f.k = "etco" -> f.n
      [] f.k = "popm" -> f.s[1] \o <<0, f.n[1]>> \o (IF \A i \in 1..4 : f.b[i] = 0 THEN Sub(f.b, 5, 8) ELSE f.b)
      [] f.k = "apic" -> <<f.e>> \o (IF ver = 2 THEN LET h == SelectSeq(V2FMT, LAMBDA p : p[2] = f.s[1]) IN h[1][1] ELSE f.s[1] \o <<0>>) \o f.n \o EncZ(f.e, o, f.s[2]) \o f.b
      [] f.k = "geob" -> <<f.e>> \o f.s[1] \o <<0>> \o EncZ(f.e, o, f.s[2]) \o EncZ(f.e, o, f.s[3]) \o f.b
      [] f.k = "atxt" -> <<f.e>> \o f.s[1] \o <<0>> \o f.n \o EncZ(f.e, o, f.s[2]) \o f.b
      [] f.k = "sylt" -> LET RECURSIVE go(_) go(i) == IF i > Len(f.s) THEN <<>> ELSE EncZ(f.e, o, f.s[i]) \o Sub(f.n, 4 * i - 5, 4 * i - 2) \o go(i + 1)
                         IN <<f.e>> \o f.b \o Sub(f.n, 1, 2) \o EncZ(f.e, o, f.s[1]) \o go(2)
      [] f.k = "chap" -> f.s[1] \o <<0>> \o f.b \o EncFrames(f.c, ver, o)
      [] f.k = "ctoc" -> f.s[1] \o <<0>> \o f.n \o <<Len(f.s) - 1>> \o CatZ(0, o, Tail(f.s)) \o EncFrames(f.c, ver, o)
      [] OTHER -> f.b
Down(ver, id) == IF ver = 2 THEN LET h == {p[1] : p \in {q \in V2IDS : q[2] = id}} IN (IF h = {} THEN id ELSE CHOOSE x \in h : TRUE)
                 ELSE IF ver = 3 THEN CASE id = "TDOR" -> "TORY" [] id = "TDRC" -> "TYER" [] id = "TIPL" -> "IPLS" [] OTHER -> id ELSE id
Flag(x, m) == IF x THEN m ELSE 0
EncFrame(f, ver, o) ==
    LET c0 == EncContent(f, ver, o) fl == f.fl
        c1 == IF fl.z /\ fl.m < 0 THEN Deflate(c0) ELSE c0
        c2 == IF fl.u THEN Unsync(c1) ELSE c1
        id == IdBytes(Down(ver, f.id)) IN
    CASE ver = 2 -> id \o BE3(Len(c0)) \o c0
      [] ver = 3 -> LET add == (IF fl.z THEN BE4(IF fl.m >= 0 THEN fl.d ELSE Len(c0)) ELSE <<>>) \o (IF fl.m >= 0 THEN <<fl.m>> ELSE <<>>) \o (IF fl.g >= 0 THEN <<fl.g>> ELSE <<>>)
                    IN id \o BE4(Len(add) + Len(c2)) \o <<Flag(fl.tap, 128) + Flag(fl.fap, 64) + Flag(fl.ro, 32), Flag(fl.z, 128) + Flag(fl.m >= 0, 64) + Flag(fl.g >= 0, 32)>> \o add \o c2
      [] OTHER -> LET add == (IF fl.g >= 0 THEN <<fl.g>> ELSE <<>>) \o (IF fl.m >= 0 THEN <<fl.m>> ELSE <<>>) \o (IF fl.d >= 0 THEN Syn4(fl.d) ELSE <<>>)
                  IN id \o Syn4(Len(add) + Len(c2))
                     \o <<Flag(fl.tap, 64) + Flag(fl.fap, 32) + Flag(fl.ro, 16), Flag(fl.g >= 0, 64) + Flag(fl.z, 8) + Flag(fl.m >= 0, 4) + Flag(fl.u, 2) + Flag(fl.d >= 0, 1)>> \o add \o c2
EncFrames(fs, ver, o) == IF fs = <<>> THEN <<>> ELSE EncFrame(fs[1], ver, o) \o EncFrames(Tail(fs), ver, o)
\* x: [u, exp, ext, foot, crc, res, pad]
EncTag(ver, x, fs, o) ==
    LET data == EncFrames(fs, ver, o) zeros == [i \in 1..x.pad |-> 0]
        ext == IF ~x.ext \/ ver = 2 THEN <<>>
               ELSE IF ver = 3 THEN BE4(IF x.crc THEN 10 ELSE 6) \o <<Flag(x.crc, 128), 0>> \o BE4(x.pad) \o (IF x.crc THEN Crc4(data) ELSE <<>>)
               ELSE LET more == (IF x.upd THEN <<0>> ELSE <<>>) \o (IF x.crc THEN <<5>> \o Crc5(data \o zeros) ELSE <<>>) \o (IF x.res >= 0 THEN <<1, x.res>> ELSE <<>>)
                    IN Syn4(6 + Len(more)) \o <<1, Flag(x.upd, 64) + Flag(x.crc, 32) + Flag(x.res >= 0, 16)>> \o more
        all == ext \o data \o zeros
        body == IF x.u /\ ver < 4 THEN Unsync(all) ELSE all
        fl == Flag(x.u, 128) + Flag(x.ext /\ ver > 2, 64) + Flag(x.exp /\ ver > 2, 32) + Flag(x.foot /\ ver = 4, 16)
    IN <<73, 68, 51, ver, 0, fl>> \o Syn4(Len(body)) \o body \o (IF x.foot /\ ver = 4 THEN <<51, 68, 73, ver, 0, fl>> \o Syn4(Len(body)) ELSE <<>>)

(* ---- what a written tag has to hold *)
V4ONLY == {"ASPI", "EQU2", "RVA2", "SEEK", "SIGN", "TDEN", "TDRL", "TDTG", "TMOO", "TPRO", "TSOA", "TSOP", "TSOT", "TSST"}
E3(e) == IF e \in {2, 3} THEN 1 ELSE e
WFl(fl) == [fl EXCEPT !.u = FALSE, !.z = IF fl.m >= 0 THEN fl.z ELSE FALSE, !.d = IF fl.m >= 0 THEN fl.d ELSE IF fl.d >= 0 THEN 0 ELSE 0 - 1]
T3(f, id, v) == [id |-> id, fl |-> WFl(f.fl)] @@ [F0 EXCEPT !.k = "text", !.e = E3(f.e), !.s = <<v>>]
RECURSIVE Expect(_, _, _), RootSkip(_, _)
\* a second root of the table of contents is left out
RootSkip(fs, seen) == IF fs = <<>> THEN <<>>
    ELSE LET root == fs[1].k = "ctoc" /\ fs[1].n[1] >= 2 IN
         IF root /\ seen THEN RootSkip(Tail(fs), seen) ELSE <<fs[1]>> \o RootSkip(Tail(fs), seen \/ root)
Lossy(f, v) == [i \in DOMAIN v |-> IF v[i] > 255 THEN 63 ELSE v[i]]
Lat(k, e) == e = 0 \/ k \in {"url", "ufid", "priv", "rva2", "popm"}
\* which strings of the frame are Latin-1
LatS(f) == CASE f.k = "wxxx" -> {2} \cup (IF f.e = 0 THEN {1} ELSE {}) [] f.k = "owne" -> {1} \cup (IF f.e = 0 THEN {3} ELSE {}) [] f.k = "ctoc" \/ f.k = "chap" -> DOMAIN f.s
             [] Lat(f.k, f.e) -> DOMAIN f.s [] OTHER -> {}
\* the genres of ID3v2.3: references in parentheses, and a text of one's own at the end
RECURSIVE Genres3(_)
Par(v) == <<40>> \o v \o <<41>>
Genre3(v) == CASE v = <<82, 101, 109, 105, 120>> -> Par(<<82, 88>>) [] v = <<67, 111, 118, 101, 114>> -> Par(<<67, 82>>)
               [] v \in {<<82, 88>>, <<67, 82>>} \/ (Len(v) \in 1..3 /\ AllDig(v, 1, Len(v))) -> Par(v) [] OTHER -> v
Genres3(v) == LET z == TermAt(v, 1, 1) IN IF z = 0 THEN Genre3(v) ELSE Genre3(Sub(v, 1, z - 1)) \o Genres3(From(v, z + 1))
One(f, v3, lossy) ==
    LET g == [f EXCEPT !.fl = WFl(f.fl), !.s = [i \in DOMAIN f.s |-> IF lossy /\ i \in LatS(f) THEN Lossy(f, f.s[i]) ELSE f.s[i]], !.c = Expect(f.c, v3, lossy)] IN
    IF ~v3 THEN <<g>>
    ELSE CASE f.id \in V4ONLY -> <<>>
           [] f.k = "time" /\ f.id = "TDOR" -> <<T3(f, "TORY", TimeText(<<f.n[1], 0 - 1, 0 - 1, 0 - 1, 0 - 1, 0 - 1>>))>>
           [] f.k = "time" -> <<T3(f, "TYER", TimeText(<<f.n[1], 0 - 1, 0 - 1, 0 - 1, 0 - 1, 0 - 1>>))>>
                              \o (IF f.n[2] >= 0 /\ f.n[3] >= 0 THEN <<T3(f, "TDAT", Two(f.n[3]) \o Two(f.n[2]))>> ELSE <<>>)
                              \o (IF f.n[4] >= 0 /\ f.n[5] >= 0 THEN <<T3(f, "TIME", Two(f.n[4]) \o Two(f.n[5]))>> ELSE <<>>)
           [] f.k = "kv" -> <<>>
           [] f.k = "text" /\ f.id = "TCON" -> <<[g EXCEPT !.e = E3(f.e), !.s = <<Genres3(@[1])>>]>>
           [] OTHER -> <<[g EXCEPT !.e = IF f.e < 0 THEN f.e ELSE E3(f.e)]>>
Flat(s) == LET RECURSIVE go(_) go(i) == IF i > Len(s) THEN <<>> ELSE s[i] \o go(i + 1) IN go(1)
Expect(fs, v3, lossy) ==
    LET keep == RootSkip(SelectSeq(fs, LAMBDA f : Len(f.id) = 4), FALSE)
        kv == SelectSeq(keep, LAMBDA f : f.k = "kv")
        ipls == IF v3 /\ kv # <<>> THEN <<[id |-> "IPLS", fl |-> Fl0] @@ [F0 EXCEPT !.k = "kv", !.e = E3(kv[1].e), !.s = Flat([i \in DOMAIN kv |-> kv[i].s])]>> ELSE <<>>
    IN Flat([i \in DOMAIN keep |-> One(keep[i], v3, lossy)]) \o ipls
RECURSIVE CanWrite(_, _, _)
\* whether the frames can be written at all
CanWrite(fs, v3, lossy) == \A i \in DOMAIN fs :
    LET f == fs[i] IN
    \/ Len(f.id) # 4
    \/ v3 /\ f.id \in V4ONLY
    \/ /\ f.fl.m >= 0 => f.fl.m > 128 /\ f.fl.d > 0
       /\ (~lossy => \A j \in LatS(f) : \A h \in DOMAIN f.s[j] : f.s[j][h] <= 255)
       /\ f.k \in {"comm", "uslt", "sylt"} => \A j \in DOMAIN f.b : Alpha(f.b[j])
       /\ f.k = "owne" => Len(f.s[2]) >= 8
       /\ KindOf(f.id) = f.k \/ f.k = "bin" \/ (f.id = "WFED" /\ f.k = "text")
       /\ CanWrite(f.c, v3, lossy)
=============================================================================
