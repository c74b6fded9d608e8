-------------------------------- MODULE Tags --------------------------------
(* The smaller tag formats (APE, Vorbis comments, the MP4 item list, RIFF INFO, AIFF text chunks, ID3v1) as   *)
(* decoders from bytes to records and encoders back.  A record is [k, id, s, n, b]: kind, key, strings (code  *)
(* points), numbers (32 bit ones as four bytes), data.                                                        *)
EXTENDS Id3v2

R(k, id, s, n, b) == [k |-> k, id |-> id, s |-> s, n |-> n, b |-> b]
Good(fs) == [ok |-> TRUE, fs |-> fs, ro |-> FALSE]
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
BE2(n) == <<n \div 256, n % 256>>
L32ok(b, i) == i + 3 <= Len(b) /\ b[i + 3] < 64
L32(b, i) == b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * b[i + 3]
B32ok(b, i) == i + 3 <= Len(b) /\ b[i] < 64
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
LowB(x) == IF x \in 65..90 THEN x + 32 ELSE x
LowK(k) == [i \in DOMAIN k |-> LowB(k[i])]
U8(b) == Utf8(b, 1, <<>>)
PosOf(b, i, x) == LET c == {j \in i..Len(b) : b[j] = x} IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A m \in c : j <= m
Zs(n) == [i \in 1..n |-> 0]

(* ---- APE: items between an optional header and a footer *)
APETAGEX == <<65, 80, 69, 84, 65, 71, 69, 88>>
ApeBlock(ver, size, count, top, ro) == APETAGEX \o LE4(ver) \o LE4(size) \o LE4(count) \o <<IF ro THEN 1 ELSE 0, 0, 0, top>> \o Zs(8)
KeyOk(k) == Len(k) \in 2..255 /\ (\A i \in DOMAIN k : k[i] \in 32..126) /\ LowK(k) \notin {<<105, 100, 51>>, <<116, 97, 103>>, <<111, 103, 103, 115>>, <<109, 112, 43>>}
RECURSIVE ApeItems(_, _, _)
ApeItems(b, i, acc) ==
    IF i > Len(b) THEN Good(acc)
    ELSE IF i + 8 > Len(b) \/ ~L32ok(b, i) \/ b[i + 4] > 5 \/ ~Zeros(Sub(b, i + 5, i + 7)) THEN Bad
    ELSE LET n == L32(b, i) z == PosOf(b, i + 8, 0) IN
    IF z = 0 \/ z + n > Len(b) THEN Bad
    ELSE LET key == Sub(b, i + 8, z - 1) v == Sub(b, z + 1, z + n) kind == b[i + 4] \div 2 t == U8(v) ro == <<b[i + 4] % 2>> IN
    IF ~KeyOk(key) \/ (kind # 1 /\ ~t.ok) \/ (\E j \in DOMAIN acc : LowK(acc[j].id) = LowK(key)) THEN Bad
    ELSE ApeItems(b, z + n + 1, Append(acc, IF kind = 1 THEN R("B", key, <<>>, ro, v) ELSE R(IF kind = 0 THEN "T" ELSE "L", key, <<t.v>>, ro, <<>>)))
ApeDec(b) ==
    LET n == Len(b) f == n - 31 IN
    IF n < 32 \/ ~L32ok(b, f + 12) \/ ~L32ok(b, f + 16) THEN Bad
    ELSE LET ver == L32(b, f + 8) size == L32(b, f + 12) count == L32(b, f + 16) top == b[f + 23] ro == b[f + 20] % 2 = 1 hdr == top = 128 IN
    IF Sub(b, f, n) # ApeBlock(ver, size, count, top, ro) \/ ver \notin {1000, 2000} \/ top \notin {0, 128} \/ (hdr /\ ver = 1000) THEN Bad
    ELSE IF n # size + (IF hdr THEN 32 ELSE 0) \/ (hdr /\ Sub(b, 1, 32) # ApeBlock(ver, size, count, 160, ro)) THEN Bad
    ELSE LET r == ApeItems(Sub(b, IF hdr THEN 33 ELSE 1, n - 32), 1, <<>>) IN
    IF ~r.ok THEN Bad ELSE IF Len(r.fs) # count \/ (ver = 1000 /\ (ro \/ \E i \in DOMAIN r.fs : r.fs[i].k # "T" \/ r.fs[i].n # <<0>>)) THEN Bad ELSE [r EXCEPT !.ro = ro]
ApeItemB(f) == LET v == IF f.k = "B" THEN f.b ELSE Utf8Bytes(f.s[1]) IN
               LE4(Len(v)) \o <<2 * (CASE f.k = "T" -> 0 [] f.k = "B" -> 1 [] f.k = "L" -> 2) + f.n[1], 0, 0, 0>> \o f.id \o <<0>> \o v
ApeEnc(fs, ver, hdr, ro) ==
    LET items == Cat([i \in DOMAIN fs |-> ApeItemB(fs[i])]) size == Len(items) + 32 IN
    (IF hdr THEN ApeBlock(ver, size, Len(fs), 160, ro) ELSE <<>>) \o items \o ApeBlock(ver, size, Len(fs), IF hdr THEN 128 ELSE 0, ro)

(* ---- base64 *)
B64 == [i \in 0..63 |-> CASE i < 26 -> 65 + i [] i < 52 -> 71 + i [] i < 62 -> i - 4 [] i = 62 -> 43 [] OTHER -> 47]
B64V == [c \in {B64[i] : i \in 0..63} |-> CHOOSE i \in 0..63 : B64[i] = c]
RECURSIVE FromB64(_, _, _), ToB64(_, _)
FromB64(b, i, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, v |-> acc]
    ELSE IF i + 3 > Len(b) \/ b[i] \notin DOMAIN B64V \/ b[i + 1] \notin DOMAIN B64V THEN Bad
    ELSE LET x == B64V[b[i]] y == B64V[b[i + 1]] IN
    IF b[i + 3] = 61 /\ i + 3 # Len(b) THEN Bad
    ELSE IF b[i + 2] = 61 THEN IF b[i + 3] = 61 /\ y % 16 = 0 THEN [ok |-> TRUE, v |-> Append(acc, x * 4 + y \div 16)] ELSE Bad
    ELSE IF b[i + 2] \notin DOMAIN B64V THEN Bad
    ELSE LET z == B64V[b[i + 2]] two == acc \o <<x * 4 + y \div 16, (y % 16) * 16 + z \div 4>> IN
    IF b[i + 3] = 61 THEN IF z % 4 = 0 THEN [ok |-> TRUE, v |-> two] ELSE Bad
    ELSE IF b[i + 3] \notin DOMAIN B64V THEN Bad ELSE FromB64(b, i + 4, Append(two, (z % 4) * 64 + B64V[b[i + 3]]))
ToB64(b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LET x == b[i] y == IF i + 1 <= Len(b) THEN b[i + 1] ELSE 0 z == IF i + 2 <= Len(b) THEN b[i + 2] ELSE 0 IN
         <<B64[x \div 4], B64[(x % 4) * 16 + y \div 16], IF i + 1 > Len(b) THEN 61 ELSE B64[(y % 16) * 4 + z \div 64], IF i + 2 > Len(b) THEN 61 ELSE B64[z % 64]>> \o ToB64(b, i + 3)

(* ---- FLAC pictures *)
PicDec(b) ==
    IF Len(b) < 32 \/ Sub(b, 1, 3) # <<0, 0, 0>> \/ b[4] > 20 \/ ~B32ok(b, 5) THEN Bad
    ELSE LET m == U32(b, 5) i == 9 + m IN
    IF i + 3 > Len(b) \/ ~B32ok(b, i) THEN Bad
    ELSE LET d == U32(b, i) j == i + 4 + d IN
    IF j + 19 > Len(b) \/ ~B32ok(b, j + 16) THEN Bad
    ELSE LET mime == Sub(b, 9, 8 + m) de == U8(Sub(b, i + 4, i + 3 + d)) IN
    IF U32(b, j + 16) # Len(b) - j - 19 \/ ~de.ok \/ \E x \in ToSet(mime) : x \notin 32..126 THEN Bad
    ELSE [ok |-> TRUE, f |-> R("pic", <<>>, <<mime, de.v>>, <<b[4]>> \o Sub(b, j, j + 15), From(b, j + 20))]
PicEnc(f) == LET d == Utf8Bytes(f.s[2]) IN
    BE4(f.n[1]) \o BE4(Len(f.s[1])) \o f.s[1] \o BE4(Len(d)) \o d \o From(f.n, 2) \o BE4(Len(f.b)) \o f.b
PNGSIG == <<137, 80, 78, 71, 13, 10, 26, 10>>
MIMEPNG == <<105, 109, 97, 103, 101, 47, 112, 110, 103>>
MIMEJPG == <<105, 109, 97, 103, 101, 47, 106, 112, 101, 103>>

(* ---- Vorbis comments *)
MBP == <<109, 101, 116, 97, 100, 97, 116, 97, 95, 98, 108, 111, 99, 107, 95, 112, 105, 99, 116, 117, 114, 101>>
COVERART == <<99, 111, 118, 101, 114, 97, 114, 116>>
OneVc(c) ==
    LET e == PosOf(c, 1, 61) IN
    IF e < 2 \/ (\E i \in 1..(e - 1) : c[i] \notin 32..125) THEN Bad
    ELSE LET key == Sub(c, 1, e - 1) v == From(c, e + 1) IN
    IF LowK(key) = MBP THEN LET p == FromB64(v, 1, <<>>) IN IF ~p.ok THEN Bad ELSE PicDec(p.v)
    ELSE IF LowK(key) = COVERART THEN
        LET p == FromB64(v, 1, <<>>) IN
        IF ~p.ok THEN Bad
        ELSE IF Len(p.v) > 8 /\ Sub(p.v, 1, 8) = PNGSIG THEN [ok |-> TRUE, f |-> R("pic", <<>>, <<MIMEPNG, <<>>>>, Zs(17), p.v)]
        ELSE IF Len(p.v) > 8 /\ Sub(p.v, 1, 3) = <<255, 216, 255>> THEN [ok |-> TRUE, f |-> R("pic", <<>>, <<MIMEJPG, <<>>>>, Zs(17), p.v)]
        ELSE Bad
    ELSE LET t == U8(v) IN IF ~t.ok THEN Bad ELSE [ok |-> TRUE, f |-> R("c", key, <<t.v>>, <<>>, <<>>)]
RECURSIVE VcItems(_, _, _, _)
VcItems(b, i, n, acc) ==
    IF n = 0 THEN IF i = Len(b) + 1 THEN Good(acc) ELSE Bad
    ELSE IF ~L32ok(b, i) THEN Bad
    ELSE LET z == L32(b, i) IN
    IF i + 3 + z > Len(b) THEN Bad
    ELSE LET r == OneVc(Sub(b, i + 4, i + 3 + z)) IN IF ~r.ok THEN Bad ELSE VcItems(b, i + 4 + z, n - 1, Append(acc, r.f))
VcDec(b) ==
    IF ~L32ok(b, 1) THEN Bad
    ELSE LET v == L32(b, 1) IN
    IF ~L32ok(b, 5 + v) THEN Bad
    ELSE LET t == U8(Sub(b, 5, 4 + v)) IN
    IF ~t.ok THEN Bad ELSE VcItems(b, 9 + v, L32(b, 5 + v), <<R("vendor", <<>>, <<t.v>>, <<>>, <<>>)>>)
VcItemB(f, key) == LET c == (IF f.k = "pic" THEN key ELSE f.id) \o <<61>> \o (IF f.k = "pic" THEN ToB64(PicEnc(f), 1) ELSE Utf8Bytes(f.s[1])) IN LE4(Len(c)) \o c
UpB(x) == IF x \in 97..122 THEN x - 32 ELSE x
VcEnc(fs, upper) ==
    LET v == Utf8Bytes(fs[1].s[1]) key == IF upper THEN [i \in DOMAIN MBP |-> UpB(MBP[i])] ELSE MBP IN
    LE4(Len(v)) \o v \o LE4(Len(fs) - 1) \o Cat([i \in 1..(Len(fs) - 1) |-> VcItemB(fs[i + 1], key)])

(* ---- the MP4 item list *)
FC(a, b, c, d) == <<a, b, c, d>>
ILST == <<105, 108, 115, 116>>
DATA == <<100, 97, 116, 97>>
MEAN == <<109, 101, 97, 110>>
NAMEA == <<110, 97, 109, 101>>
DASH == <<45, 45, 45, 45>>
COVR == <<99, 111, 118, 114>>
GNRE == <<103, 110, 114, 101>>
CGEN == <<169, 103, 101, 110>>
PLID == <<112, 108, 73, 68>>
FREE == {<<102, 114, 101, 101>>, <<115, 107, 105, 112>>}
BOOLS == {<<99, 112, 105, 108>>, <<104, 100, 118, 100>>, <<112, 99, 115, 116>>, <<112, 103, 97, 112>>, <<115, 104, 119, 109>>}
\* the atom at i: its type, where its content starts, where it ends
AtomAt(b, i) ==
    IF i + 7 > Len(b) THEN Bad
    ELSE IF Sub(b, i, i + 3) = <<0, 0, 0, 1>> THEN
        IF i + 15 > Len(b) \/ ~Zeros(Sub(b, i + 8, i + 11)) \/ ~B32ok(b, i + 12) THEN Bad
        ELSE LET n == U32(b, i + 12) IN IF n < 16 \/ i + n - 1 > Len(b) THEN Bad ELSE [ok |-> TRUE, id |-> Sub(b, i + 4, i + 7), from |-> i + 16, to |-> i + n - 1]
    ELSE IF ~B32ok(b, i) THEN Bad
    ELSE LET n == U32(b, i) IN IF n < 8 \/ i + n - 1 > Len(b) THEN Bad ELSE [ok |-> TRUE, id |-> Sub(b, i + 4, i + 7), from |-> i + 8, to |-> i + n - 1]
Ext(v, n) == [i \in 1..(4 - Len(v)) |-> IF n THEN 255 ELSE 0] \o v
OneData(id, code, v, x) ==
    CASE id = COVR -> IF code \in {0, 12, 13, 14, 27} THEN [ok |-> TRUE, f |-> R("pic", id, <<>>, <<x, code>>, v)] ELSE Bad
      [] id = PLID -> IF Len(v) = 8 THEN [ok |-> TRUE, f |-> R("x", id, <<>>, <<x, code>>, v)] ELSE Bad
      [] id = GNRE -> IF Len(v) = 2 THEN [ok |-> TRUE, f |-> R("x", id, <<>>, <<x, code>>, v)] ELSE Bad
      [] id \in BOOLS -> IF x = 0 THEN [ok |-> TRUE, f |-> R("bool", id, <<>>, <<x, IF Zeros(v) THEN 0 ELSE 1>>, <<>>)] ELSE Bad
      [] code = 1 -> LET t == U8(v) IN IF t.ok THEN [ok |-> TRUE, f |-> R("u8", id, <<t.v>>, <<x>>, <<>>)] ELSE Bad
      [] code = 2 -> LET t == Utf16(v, 1, "be", FALSE, <<>>) IN IF t.ok THEN [ok |-> TRUE, f |-> R("u16", id, <<t.v>>, <<x>>, <<>>)] ELSE Bad
      [] code = 21 -> IF Len(v) \in 1..4 THEN [ok |-> TRUE, f |-> R("si", id, <<>>, <<x>> \o Ext(v, v[1] > 127), <<>>)] ELSE Bad
      [] code = 22 -> IF Len(v) \in 1..4 THEN [ok |-> TRUE, f |-> R("ui", id, <<>>, <<x>> \o Ext(v, FALSE), <<>>)] ELSE Bad
      [] OTHER -> [ok |-> TRUE, f |-> R("x", id, <<>>, <<x, code>>, v)]
RECURSIVE Datas(_, _, _, _, _), Atoms(_, _, _)
Datas(id, b, i, to, acc) ==
    IF i > to THEN IF acc = <<>> THEN Bad ELSE Good(acc)
    ELSE LET a == AtomAt(b, i) IN
    IF ~a.ok THEN Bad
    ELSE IF a.id # DATA \/ a.to > to \/ a.to - a.from < 8 \/ b[a.from] # 0 \/ b[a.from + 1] > 63 THEN Bad     \* (empty values have no meaning)
    ELSE LET r == OneData(id, U24(b, a.from + 1), Sub(b, a.from + 8, a.to), Len(acc)) IN
    IF ~r.ok THEN Bad ELSE Datas(id, b, a.to + 1, to, Append(acc, r.f))
Atoms(b, i, acc) ==
    IF i > Len(b) THEN Good(acc)
    ELSE LET a == AtomAt(b, i) IN
    IF ~a.ok THEN Bad
    ELSE IF a.id \in FREE THEN Atoms(b, a.to + 1, acc)
    ELSE IF a.id = DASH THEN
        LET m == AtomAt(b, a.from) IN
        IF ~m.ok THEN Bad
        ELSE LET n == AtomAt(b, m.to + 1) IN
        IF ~n.ok THEN Bad
        ELSE IF m.id # MEAN \/ n.id # NAMEA \/ n.to > a.to \/ m.to - m.from < 4 \/ n.to - n.from < 4 \/ ~Zeros(Sub(b, m.from, m.from + 3) \o Sub(b, n.from, n.from + 3)) THEN Bad
        ELSE LET mm == U8(Sub(b, m.from + 4, m.to)) nn == U8(Sub(b, n.from + 4, n.to)) IN
        IF ~mm.ok \/ ~nn.ok THEN Bad
        ELSE LET r == Datas(mm.v \o <<0>> \o nn.v, b, n.to + 1, a.to, <<>>) IN IF ~r.ok THEN Bad ELSE Atoms(b, a.to + 1, acc \o r.fs)
    ELSE LET r == Datas(a.id, b, a.from, a.to, <<>>) IN IF ~r.ok THEN Bad ELSE Atoms(b, a.to + 1, acc \o r.fs)
IlstDec(b) == LET a == AtomAt(b, 1) IN IF ~a.ok THEN Bad ELSE IF a.id # ILST \/ a.to # Len(b) THEN Bad ELSE Atoms(From(b, a.from), 1, <<>>)
Bx(id, c, ext) == IF ext THEN <<0, 0, 0, 1>> \o id \o <<0, 0, 0, 0>> \o BE4(Len(c) + 16) \o c ELSE BE4(Len(c) + 8) \o id \o c
DataB(f, loc) ==
    LET code == CASE f.k = "u8" -> 1 [] f.k = "u16" -> 2 [] f.k \in {"si", "bool"} -> 21 [] f.k = "ui" -> 22 [] OTHER -> f.n[2]
        v == CASE f.k = "u8" -> Utf8Bytes(f.s[1]) [] f.k = "u16" -> Utf16Bytes(f.s[1], "be") [] f.k = "bool" -> <<f.n[2]>> [] f.k \in {"si", "ui"} -> From(f.n, 2) [] OTHER -> f.b IN
    Bx(DATA, <<0>> \o BE3(code) \o loc \o v, FALSE)
IsFree(id) == Len(id) # 4
AtomB(fs, loc, ext) ==
    LET id == fs[1].id d == Cat([i \in DOMAIN fs |-> DataB(fs[i], loc)]) IN
    IF IsFree(id) THEN LET z == PosOf(id, 1, 0) IN
        Bx(DASH, Bx(MEAN, <<0, 0, 0, 0>> \o Utf8Bytes(Sub(id, 1, z - 1)), FALSE) \o Bx(NAMEA, <<0, 0, 0, 0>> \o Utf8Bytes(From(id, z + 1)), FALSE) \o d, ext)
    ELSE Bx(id, d, ext)
RECURSIVE GroupAtoms(_, _)
GroupAtoms(fs, acc) ==      \* records of one atom, in sequence
    IF fs = <<>> THEN acc
    ELSE IF fs[1].n[1] = 0 THEN GroupAtoms(Tail(fs), Append(acc, <<fs[1]>>))
    ELSE GroupAtoms(Tail(fs), [acc EXCEPT ![Len(acc)] = Append(@, fs[1])])
IlstEnc(fs, loc, ext, free) ==
    LET g == GroupAtoms(fs, <<>>) IN
    Bx(ILST, (IF free THEN Bx(<<102, 114, 101, 101>>, Zs(5), FALSE) ELSE <<>>) \o Cat([i \in DOMAIN g |-> AtomB(g[i], loc, ext)]) \o (IF free THEN Bx(<<115, 107, 105, 112>>, <<>>, FALSE) ELSE <<>>), FALSE)

(* ---- RIFF INFO *)
LIST == <<76, 73, 83, 84>>
INFO == <<73, 78, 70, 79>>
IdOk(id) == \A i \in 1..4 : id[i] \in 32..126
RECURSIVE InfoItems(_, _, _)
InfoItems(b, i, acc) ==
    IF i > Len(b) THEN Good(acc)
    ELSE IF i + 7 > Len(b) \/ ~L32ok(b, i + 4) THEN Bad
    ELSE LET n == L32(b, i + 4) p == n % 2 IN
    IF i + 7 + n + p > Len(b) \/ ~IdOk(Sub(b, i, i + 3)) \/ n = 0 THEN Bad
    ELSE LET v == Sub(b, i + 8, i + 7 + n) z == PosOf(v, 1, 0) t == U8(IF z = 0 THEN v ELSE Sub(v, 1, z - 1)) IN
    IF ~t.ok \/ (z > 0 /\ ~Zeros(From(v, z))) \/ (p = 1 /\ b[i + 8 + n] # 0) THEN Bad
    ELSE InfoItems(b, i + 8 + n + p, Append(acc, R("c", Sub(b, i, i + 3), <<t.v>>, <<>>, <<>>)))
InfoDec(b) == IF Len(b) < 12 \/ ~L32ok(b, 5) THEN Bad
              ELSE IF Sub(b, 1, 4) # LIST \/ Sub(b, 9, 12) # INFO \/ L32(b, 5) # Len(b) - 8 THEN Bad ELSE InfoItems(From(b, 13), 1, <<>>)
InfoB(f, z) == LET v == Utf8Bytes(f.s[1]) \o Zs(z) IN f.id \o LE4(Len(v)) \o v \o Zs(Len(v) % 2)
InfoEnc(fs, z) == LET c == INFO \o Cat([i \in DOMAIN fs |-> InfoB(fs[i], z)]) IN LIST \o LE4(Len(c)) \o c

(* ---- the text chunks of AIFF *)
CNAME == <<78, 65, 77, 69>>
CAUTH == <<65, 85, 84, 72>>
CCOPY == <<40, 99, 41, 32>>
CANNO == <<65, 78, 78, 79>>
CCOMT == <<67, 79, 77, 84>>
ChunkName(id) == CASE id = CNAME -> "NAME" [] id = CAUTH -> "AUTH" [] id = CCOPY -> "(c) " [] id = CANNO -> "ANNO" [] id = CCOMT -> "COMT" [] OTHER -> ""
NameId(k) == CASE k = "NAME" -> CNAME [] k = "AUTH" -> CAUTH [] k = "(c) " -> CCOPY [] k = "ANNO" -> CANNO [] k = "COMT" -> CCOMT
RECURSIVE Comts(_, _, _, _), TextChunks(_, _, _)
Comts(b, i, n, acc) ==
    IF n = 0 THEN IF i = Len(b) + 1 THEN Good(acc) ELSE Bad
    ELSE IF i + 7 > Len(b) THEN Bad
    ELSE LET z == U16(b, i + 6) p == z % 2 IN
    IF i + 7 + z + p > Len(b) THEN Bad
    ELSE LET t == U8(Sub(b, i + 8, i + 7 + z)) IN
    IF ~t.ok \/ 0 \in ToSet(t.v) THEN Bad ELSE Comts(b, i + 8 + z + p, n - 1, Append(acc, R("COMT", <<>>, <<t.v>>, Sub(b, i, i + 3) \o <<U16(b, i + 4)>>, <<>>)))
TextChunks(b, i, acc) ==
    IF i > Len(b) THEN Good(acc)
    ELSE IF i + 7 > Len(b) \/ ~B32ok(b, i + 4) THEN Bad
    ELSE LET n == U32(b, i + 4) k == ChunkName(Sub(b, i, i + 3)) v == Sub(b, i + 8, i + 7 + n) IN
    IF i + 7 + n + (n % 2) > Len(b) \/ k = "" THEN Bad
    ELSE IF k = "COMT" THEN
        IF n < 2 \/ \E j \in DOMAIN acc : acc[j].k = "COMT" THEN Bad
        ELSE LET r == Comts(v, 3, U16(v, 1), <<>>) IN IF ~r.ok THEN Bad ELSE TextChunks(b, i + 8 + n + (n % 2), acc \o r.fs)
    ELSE LET t == U8(v) IN
    IF ~t.ok \/ (k # "ANNO" /\ \E j \in DOMAIN acc : acc[j].k = k) THEN Bad
    ELSE IF 0 \in ToSet(t.v) THEN Bad ELSE TextChunks(b, i + 8 + n + (n % 2), Append(acc, R(k, <<>>, <<t.v>>, <<>>, <<>>)))
Ck(id, c) == id \o BE4(Len(c)) \o c \o Zs(Len(c) % 2)
ComtB(f) == LET t == Utf8Bytes(f.s[1]) IN Sub(f.n, 1, 4) \o BE2(f.n[5]) \o BE2(Len(t)) \o t \o Zs(Len(t) % 2)
AiffEnc(fs) ==
    LET cm == SelectSeq(fs, LAMBDA f : f.k = "COMT") rest == SelectSeq(fs, LAMBDA f : f.k # "COMT") IN
    Cat([i \in DOMAIN rest |-> Ck(NameId(rest[i].k), Utf8Bytes(rest[i].s[1]))])
    \o IF cm = <<>> THEN <<>> ELSE Ck(CCOMT, BE2(Len(cm)) \o Cat([i \in DOMAIN cm |-> ComtB(cm[i])]))

(* ---- ID3v1 *)
V1Str(b, i, n) == LET v == Sub(b, i, i + n - 1) z == PosOf(v, 1, 0) IN
    IF z = 0 THEN [ok |-> TRUE, v |-> v] ELSE IF Zeros(From(v, z)) THEN [ok |-> TRUE, v |-> Sub(v, 1, z - 1)] ELSE Bad
V1Rec(k, v) == IF v = <<>> THEN <<>> ELSE <<R(k, <<>>, <<v>>, <<>>, <<>>)>>
V1Dec(b) ==
    IF Len(b) # 128 THEN Bad
    ELSE IF Sub(b, 1, 3) # <<84, 65, 71>> THEN Bad
    ELSE LET t11 == b[126] = 0 /\ b[127] # 0
             t == V1Str(b, 4, 30) a == V1Str(b, 34, 30) l == V1Str(b, 64, 30) c == V1Str(b, 98, IF t11 THEN 28 ELSE 30)
             y == Sub(b, 94, 97) dig == AllDig(y, 1, 4) IN
    IF ~t.ok \/ ~a.ok \/ ~l.ok \/ ~c.ok \/ ~(dig \/ Zeros(y)) \/ b[128] \in 192..254 THEN Bad
    ELSE Good(V1Rec("title", t.v) \o V1Rec("artist", a.v) \o V1Rec("album", l.v) \o V1Rec("comment", c.v)
              \o (IF dig THEN <<R("year", <<>>, <<>>, <<Num(y, 1, 4)>>, <<>>)>> ELSE <<>>)
              \o (IF t11 THEN <<R("track", <<>>, <<>>, <<b[127]>>, <<>>)>> ELSE <<>>)
              \o (IF b[128] < 192 THEN <<R("genre", <<>>, <<>>, <<b[128]>>, <<>>)>> ELSE <<>>))
\* what follows the terminator of a text is not a part of it
V1Clean(b) ==
    IF Len(b) # 128 THEN b
    ELSE LET c == IF b[126] = 0 /\ b[127] # 0 THEN 28 ELSE 30
             cut(i, n) == LET v == Sub(b, i, i + n - 1) z == PosOf(v, 1, 0) IN IF z = 0 THEN v ELSE Sub(v, 1, z - 1) \o Zs(n - z + 1) IN
         Sub(b, 1, 3) \o cut(4, 30) \o cut(34, 30) \o cut(64, 30) \o Sub(b, 94, 97) \o cut(98, c) \o Sub(b, 98 + c, 128)
FieldOf(fs, k) == LET m == SelectSeq(fs, LAMBDA f : f.k = k) IN IF m = <<>> THEN <<>> ELSE m[1].s[1]
NumOf(fs, k) == LET m == SelectSeq(fs, LAMBDA f : f.k = k) IN IF m = <<>> THEN 0 - 1 ELSE m[1].n[1]
V1Enc(fs) ==
    LET fill(v, n) == v \o Zs(n - Len(v)) y == NumOf(fs, "year") t == NumOf(fs, "track") g == NumOf(fs, "genre") IN
    <<84, 65, 71>> \o fill(FieldOf(fs, "title"), 30) \o fill(FieldOf(fs, "artist"), 30) \o fill(FieldOf(fs, "album"), 30)
    \o (IF y < 0 THEN Zs(4) ELSE Two(y \div 100) \o Two(y % 100))
    \o (IF t < 0 THEN fill(FieldOf(fs, "comment"), 30) ELSE fill(FieldOf(fs, "comment"), 28) \o <<0, t>>) \o <<IF g < 0 THEN 255 ELSE g>>

Dec(ty, b) ==
    CASE ty = "Ape" -> ApeDec(b) [] ty = "VorbisComments" -> VcDec(b) [] ty = "Mp4Ilst" -> IlstDec(b)
      [] ty = "RiffInfo" -> InfoDec(b) [] ty = "AiffText" -> TextChunks(b, 1, <<>>) [] ty = "Id3v1" -> V1Dec(b)

(* ---- what lofty makes of it *)
ImageKeys == <<99, 111, 118, 101, 114, 32, 97, 114, 116, 32, 40>>      \* "cover art ("
ApeArt(f) == Len(f.id) > 11 /\ LowK(Sub(f.id, 1, 11)) = ImageKeys
IsArt(ty, f) == CASE ty = "Ape" -> ApeArt(f) [] OTHER -> f.k = "pic"
TRACKN == <<116, 114, 97, 99, 107, 110, 117, 109, 98, 101, 114>>
DISCN == <<100, 105, 115, 99, 110, 117, 109, 98, 101, 114>>
TRACKT == <<84, 82, 65, 67, 75, 84, 79, 84, 65, 76>>
DISCT == <<68, 73, 83, 67, 84, 79, 84, 65, 76>>
UpK(k) == [i \in DOMAIN k |-> UpB(k[i])]
RECURSIVE NoZero(_)
NoZero(v) == IF Len(v) > 1 /\ v[1] = 48 THEN NoZero(Tail(v)) ELSE v
Dg(v) == v # <<>> /\ Len(v) < 10 /\ AllDig(v, 1, Len(v))
\* "current/total" becomes two numbers
NumPair(f, total) ==
    LET v == f.s[1] sl == PosOf(v, 1, 47) c == IF sl = 0 THEN v ELSE Sub(v, 1, sl - 1) t == IF sl = 0 THEN <<>> ELSE From(v, sl + 1) IN
    (IF Dg(t) THEN <<R("c", total, <<NoZero(t)>>, <<>>, <<>>)>> ELSE <<>>)
    \o <<R("c", UpK(f.id), <<IF Dg(c) THEN NoZero(c) ELSE v>>, <<>>, <<>>)>>
VcSee(f, impl) ==
    IF f.k # "c" THEN <<f>>
    ELSE IF LowK(f.id) = TRACKN THEN IF impl THEN NumPair(f, TRACKT) ELSE <<[f EXCEPT !.id = UpK(f.id)]>>
    ELSE IF LowK(f.id) = DISCN THEN IF impl THEN NumPair(f, DISCT) ELSE <<[f EXCEPT !.id = UpK(f.id)]>>
    ELSE <<f>>
GenreCp == (1 :> <<66, 108, 117, 101, 115>> @@ 18 :> <<82, 111, 99, 107>>)       \* Blues, Rock
IlstSee(fs, impl) ==
    IF ~impl THEN fs
    ELSE LET g == SelectSeq(fs, LAMBDA f : f.id = GNRE /\ f.b[2] \in DOMAIN GenreCp) rest == SelectSeq(fs, LAMBDA f : f.id # GNRE) IN
         IF \E i \in DOMAIN rest : rest[i].id = CGEN THEN rest
         ELSE rest \o [i \in DOMAIN g |-> R("u8", CGEN, <<GenreCp[g[i].b[2]]>>, <<i - 1>>, <<>>)]
See(ty, fs0, art, impl) ==
    LET fs == IF art THEN fs0 ELSE SelectSeq(fs0, LAMBDA f : ~IsArt(ty, f)) IN
    CASE ty = "VorbisComments" -> Cat([i \in DOMAIN fs |-> VcSee(fs[i], impl)]) [] ty = "Mp4Ilst" -> IlstSee(fs, impl) [] OTHER -> fs
\* the order that counts: comments in their order, pictures in theirs
Sorted(ty, fs) ==
    CASE ty = "VorbisComments" -> LET nums == {UpK(TRACKN), UpK(DISCN), TRACKT, DISCT} IN
            <<SelectSeq(fs, LAMBDA f : f.k # "pic" /\ f.id \notin nums), SelectSeq(fs, LAMBDA f : f.k = "pic"), {fs[i] : i \in {j \in DOMAIN fs : fs[j].id \in nums}}>>
      [] ty = "AiffText" -> <<SelectSeq(fs, LAMBDA f : f.k = "ANNO"), SelectSeq(fs, LAMBDA f : f.k = "COMT"), ToSet(SelectSeq(fs, LAMBDA f : f.k \notin {"ANNO", "COMT"}))>>
      [] ty \in {"Id3v1", "Ape"} -> ToSet(fs)
      [] OTHER -> fs
=============================================================================
