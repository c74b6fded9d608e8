------------------------------ MODULE CTagOps ------------------------------
(* The format specific tags as collections.  A tag is a sequence of items
   [id, k, f, fl]; what an item means depends on the tag type:
     VorbisComments  id = field name, f = <<value>>; pictures have id = k = "pic"
     Ape             id = key, k = T/L/B, f = <<value>>, fl = "ro"
     RiffInfo        id = fourcc, f = <<value>>
     Mp4Ilst         id = atom identifier, f = <<kind, value, kind, value, ...>>
     Id3v2           id = frame id, k = frame kind, f = fields
   Apply(ty, items, op) is the collection step: the new items and what is returned. *)
EXTENDS Common, Json, IOUtils

R(items, ret) == [items |-> items, ret |-> ret]
NoRet == <<>>
Refused == <<"refused">>
RefusedItem == <<[id |-> "refused", k |-> "", f |-> <<>>, fl |-> ""]>>
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
FirstIx(s, P(_)) == LET m == {i \in DOMAIN s : P(s[i])} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j
Vals(s) == [i \in DOMAIN s |-> s[i].f[1]]

(* ------------------------- Vorbis comments ------------------------- *)
VcKeyOk(k) == Len(k) > 0 /\ CharSet(k) \subseteq (PrintC \ {"=", "~"})
VcIsPic(x) == x.id = "pic" /\ x.k = "pic"
VcHas(k, x) == ~VcIsPic(x) /\ EqCI(x.id, k)
VcOf(s, k) == Filter(s, LAMBDA x : VcHas(k, x))
VcNot(s, k) == Filter(s, LAMBDA x : ~VcHas(k, x))
VcItems(s) == Filter(s, LAMBDA x : ~VcIsPic(x))
VcPics(s) == Filter(s, VcIsPic)
VcPicI(op) == [id |-> "pic", k |-> "pic", f |-> op.item.f, fl |-> ""]
IconTypes == {"1", "2"}
VcInsertPic(s, p) ==
    LET its == VcItems(s) ps == VcPics(s)
        old == IF p.f[1] \in IconTypes THEN FirstIx(ps, LAMBDA x : x.f[1] = p.f[1]) ELSE 0 IN
    IF old = 0 THEN R(Append(s, p), NoRet)
    ELSE R(its \o Append(DropAt(ps, old), p), <<ps[old]>>)
VcSetPic(s, i, p) ==     \* i counts from zero
    LET its == VcItems(s) ps == VcPics(s) IN
    IF i >= Len(ps) THEN R(VcInsertPic(s, p).items, NoRet)
    ELSE LET q == [ps EXCEPT ![i + 1] = p] IN
         LET ne(x) == x.f[1] # p.f[1] IN
         R(its \o IF p.f[1] \in IconTypes
                  THEN Filter(SubSeq(ps, 1, i), ne) \o <<p>> \o Filter(SubSeq(ps, i + 2, Len(ps)), ne)
                  ELSE q, NoRet)
VcItem(op) == [id |-> op.item.id, k |-> "", f |-> op.item.f, fl |-> ""]
\* items always precede pictures in the projection
VcAdd(s, x) == Append(VcItems(s), x) \o VcPics(s)
VcApply(s, op) ==
    CASE op.a = "push" -> IF VcKeyOk(op.item.id) THEN R(VcAdd(s, VcItem(op)), NoRet) ELSE R(s, NoRet)
      [] op.a = "insert" -> IF VcKeyOk(op.item.id) THEN R(VcAdd(VcNot(s, op.item.id), VcItem(op)), NoRet) ELSE R(s, NoRet)
      [] op.a = "remove" -> R(VcNot(s, op.key), Vals(VcOf(s, op.key)))
      [] op.a = "remove_unread" -> R(VcNot(s, op.key), NoRet)
      [] op.a = "take_items" -> R(VcPics(s), [i \in DOMAIN VcItems(s) |-> VcItems(s)[i].id \o "=" \o VcItems(s)[i].f[1]])
      [] op.a = "set_vendor" -> R(s, NoRet)
      [] op.a = "insert_pic" -> VcInsertPic(s, VcPicI(op))
      [] op.a = "set_pic" -> VcSetPic(s, op.idx, VcPicI(op))
      [] op.a = "remove_pic" -> R(VcItems(s) \o DropAt(VcPics(s), op.idx + 1), <<VcPics(s)[op.idx + 1]>>)
      [] op.a = "remove_pic_type" -> R(Filter(s, LAMBDA x : ~(VcIsPic(x) /\ x.f[1] = ToString(op.pt))), NoRet)
      [] op.a = "remove_pics" -> R(VcItems(s), VcPics(s))
      [] op.a = "clear" -> R(<<>>, NoRet)

(* ------------------------------- APE ------------------------------- *)
ApeKeyOk(k) == /\ Len(k) \in 2..255 /\ CharSet(k) \subseteq PrintC
               /\ SubSeq(k, 1, 2) # "~u"      \* (a placeholder for text outside ASCII)
               /\ \A b \in {"ID3", "TAG", "OGGS", "MP+"} : ~EqCI(k, b)
ApeNot(s, k) == Filter(s, LAMBDA x : ~EqCI(x.id, k))
ApeApply(s, op) ==
    CASE op.a = "insert" -> IF ApeKeyOk(op.item.id) THEN R(Append(ApeNot(s, op.item.id), op.item), NoRet) ELSE R(s, Refused)
      [] op.a = "push" ->
            IF ~ApeKeyOk(op.item.id) THEN R(s, Refused)
            ELSE LET i == FirstIx(s, LAMBDA x : EqCI(x.id, op.item.id)) IN
                 IF i = 0 THEN R(Append(s, op.item), NoRet)
                 ELSE IF s[i].k = op.item.k /\ op.item.k \in {"T", "L"}
                      THEN R([s EXCEPT ![i] = [@ EXCEPT !.f = <<@[1] \o "<0>" \o op.item.f[1]>>]], NoRet)
                      ELSE R([s EXCEPT ![i] = op.item], NoRet)
      [] op.a = "remove" -> R(ApeNot(s, op.key), NoRet)
      [] op.a = "clear" -> R(<<>>, NoRet)

(* ------------------------------- RIFF ------------------------------ *)
RiffKeyOk(k) == /\ Len(k) = 4 /\ CharSet(k) \subseteq PrintC
                /\ SubSeq(k, 1, 1) # " "
                /\ \A i \in 2..3 : SubSeq(k, i, i) = " " => SubSeq(k, i + 1, i + 1) = " "
RiffApply(s, op) ==
    CASE op.a = "insert" -> IF RiffKeyOk(op.item.id) THEN R(Append(ApeNot(s, op.item.id), VcItem(op)), NoRet) ELSE R(s, NoRet)
      [] op.a = "remove" -> R(ApeNot(s, op.key), Vals(Filter(s, LAMBDA x : EqCI(x.id, op.key))))
      [] op.a = "clear" -> R(<<>>, NoRet)

(* ------------------------------- ilst ------------------------------ *)
IsPicKind(x) == Len(x) >= 3 /\ SubSeq(x, 1, 3) = "pic"
AllPics(f) == \A i \in 1..(Len(f) \div 2) : IsPicKind(f[2 * i - 1])
Atom(id, f) == [id |-> id, k |-> "", f |-> f, fl |-> ""]
IlstNot(s, id) == Filter(s, LAMBDA x : x.id # id)
IlstMerge(s, a) == LET i == FirstIx(s, LAMBDA x : x.id = a.id) IN
                   IF i = 0 THEN Append(s, a) ELSE [s EXCEPT ![i] = [@ EXCEPT !.f = @ \o a.f]]
IlstApply(s, op) ==
    CASE op.a = "insert" -> R(IlstMerge(s, Atom(op.item.id, op.item.f)), NoRet)
      [] op.a = "replace" -> R(Append(IlstNot(s, op.item.id), Atom(op.item.id, op.item.f)), NoRet)
      [] op.a = "remove" -> R(IlstNot(s, op.key), Filter(s, LAMBDA x : x.id = op.key))
      [] op.a \in {"remove_unread", "retain_not"} -> R(IlstNot(s, op.key), NoRet)
      [] op.a = "set_flag" -> R(IF op.v = "true" THEN Append(IlstNot(s, op.key), Atom(op.key, <<"bool", "true">>)) ELSE IlstNot(s, op.key), NoRet)
      [] op.a = "set_rating" -> R(Append(IlstNot(s, "rtng"), Atom("rtng", <<"si", op.v>>)), NoRet)
      [] op.a = "insert_pic" -> R(IlstMerge(s, Atom("covr", <<IF op.item.f[2] = "-" THEN "pic" ELSE "pic:" \o op.item.f[2], op.item.f[4]>>)), NoRet)
      [] op.a = "remove_pics" -> R(Filter(s, LAMBDA x : ~(x.id = "covr" /\ AllPics(x.f))), NoRet)
      [] op.a = "clear" -> R(<<>>, NoRet)
FlagIds == <<"pcst", "pgap", "shwm", "hdvd", "cpil">>
IlstFlags(s) == Filter(FlagIds, LAMBDA n : LET i == FirstIx(s, LAMBDA x : x.id = n) IN i # 0 /\ s[i].f[1] = "bool" /\ s[i].f[2] = "true")
RatingOf(v) == CASE v = "0" -> "0" [] v = "2" -> "2" [] v \in {"1", "4"} -> "1" [] OTHER -> "-"
IlstRating(s) ==
    LET i == FirstIx(s, LAMBDA x : x.id = "rtng") IN
    IF i = 0 THEN "-"
    ELSE LET ok == {j \in 1..(Len(s[i].f) \div 2) : s[i].f[2 * j - 1] = "si" /\ RatingOf(s[i].f[2 * j]) # "-"} IN
         IF ok = {} THEN "-" ELSE RatingOf(s[i].f[2 * (CHOOSE j \in ok : \A m \in ok : j <= m)])

(* ------------------------------ ID3v2 ------------------------------ *)
OnePerTag == {"MCDI", "ETCO", "MLLT", "SYTC", "RVRB", "PCNT", "RBUF", "POSS", "OWNE", "SEEK", "ASPI"}
\* what makes two frames "the same" for insertion
Ident(x) ==
    CASE x.k \in {"text", "url"} -> <<x.k, x.id>>
      [] x.k \in {"txxx", "wxxx"} -> <<x.k, x.f[2]>>
      [] x.k \in {"comm", "uslt"} -> <<x.k, x.f[2], x.f[3]>>
      [] x.k \in {"popm", "ufid", "rva2", "chap", "ctoc"} -> <<x.k, x.f[1]>>
      [] OTHER -> <<x.k, x.id, x.fl>> \o x.f
V2Not(s, id) == Filter(s, LAMBDA x : x.id # id)
V2Of(s, id) == Filter(s, LAMBDA x : x.id = id)
V2Insert(s, x) ==
    IF x.k \in {"ts", "kv"} \/ x.id \in OnePerTag
    THEN R(Append(V2Not(s, x.id), x), FirstOf(V2Of(s, x.id)))
    ELSE LET i == FirstIx(s, LAMBDA y : Ident(y) = Ident(x)) IN
         IF i = 0 THEN R(Append(s, x), NoRet) ELSE R(Append(DropAt(s, i), x), <<s[i]>>)
RECURSIVE Join0(_)
Join0(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "<0>" \o Join0(Tail(s))
V2Text(id, v) == [id |-> id, k |-> "text", f |-> <<"U8", v>>, fl |-> ""]
V2Pic(op) == [id |-> "APIC", k |-> "apic", f |-> <<"U8">> \o op.item.f, fl |-> ""]
V2Apply(s, op) ==
    CASE op.a = "insert" -> V2Insert(s, op.item)
      [] op.a = "insert_multi" -> V2Insert(s, V2Text(op.key, Join0(op.vs)))
      [] op.a = "insert_ut" -> V2Insert(s, [id |-> "TXXX", k |-> "txxx", f |-> <<"U8", op.key, op.v>>, fl |-> ""])
      [] op.a = "remove" -> R(V2Not(s, op.key), V2Of(s, op.key))
      [] op.a \in {"remove_unread", "retain_not"} -> R(V2Not(s, op.key), NoRet)
      [] op.a = "remove_ut" -> LET i == FirstIx(s, LAMBDA y : y.k = "txxx" /\ y.f[2] = op.key) IN
                               IF i = 0 THEN R(s, NoRet) ELSE R(DropAt(s, i), <<s[i]>>)
      [] op.a = "insert_pic" ->
            LET i == IF op.item.f[1] \in IconTypes THEN FirstIx(s, LAMBDA y : y.k = "apic" /\ y.f[2] = op.item.f[1]) ELSE 0 IN
            IF i = 0 THEN R(Append(s, V2Pic(op)), NoRet) ELSE R(Append(DropAt(s, i), V2Pic(op)), <<s[i]>>)
      [] op.a = "remove_pic_type" -> R(Filter(s, LAMBDA y : ~(y.k = "apic" /\ y.f[2] = ToString(op.pt))), NoRet)
      [] op.a = "clear" -> R(<<>>, NoRet)
\* text split at the separator as it is shown ("<0>")
RECURSIVE Split0(_)
Split0(v) ==
    LET cut == {i \in 1..(Len(v) - 2) : SubSeq(v, i, i + 2) = "<0>"} IN
    IF cut = {} THEN <<v>>
    ELSE LET i == CHOOSE i \in cut : \A j \in cut : i <= j IN <<SubSeq(v, 1, i - 1)>> \o Split0(SubSeq(v, i + 3, Len(v)))

Apply(ty, s, op) ==
    CASE op.a = "clear" -> R(<<>>, NoRet)
      [] ty = "VorbisComments" -> VcApply(s, op)
      [] ty = "Ape" -> ApeApply(s, op)
      [] ty = "RiffInfo" -> RiffApply(s, op)
      [] ty = "Mp4Ilst" -> IlstApply(s, op)
      [] ty = "Id3v2" -> V2Apply(s, op)

(* ----------------------------- lookups ----------------------------- *)
PrefixIs(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
KeyOk(ty, s, o) ==
    CASE ty = "VorbisComments" ->
            LET m == VcOf(s, o.k) IN
            /\ o.get = (IF VcKeyOk(o.k) THEN FirstOf(Vals(m)) ELSE <<>>) /\ o.all = Vals(m) /\ o.contains = (m # <<>>)
      [] ty = "Ape" ->
            LET m == Filter(s, LAMBDA x : EqCI(x.id, o.k)) IN
            /\ o.get = FirstOf([i \in DOMAIN m |-> m[i].id]) /\ o.contains = (m # <<>>)
            /\ o.all = IF m # <<>> /\ m[1].k # "B" THEN Split0(m[1].f[1]) ELSE <<>>
      [] ty = "RiffInfo" ->
            LET m == Filter(s, LAMBDA x : EqCI(x.id, o.k)) IN
            o.get = FirstOf(Vals(m)) /\ o.contains = (m # <<>>)
      [] ty = "Mp4Ilst" ->
            LET m == Filter(s, LAMBDA x : x.id = o.k) IN o.get = FirstOf(m) /\ o.contains = (m # <<>>)
      [] ty = "Id3v2" ->
            IF PrefixIs(o.k, "TXXX:")
            THEN LET d == SubSeq(o.k, 6, Len(o.k)) m == Filter(s, LAMBDA x : x.k = "txxx" /\ x.f[2] = d) IN
                 o.get = FirstOf([i \in DOMAIN m |-> m[i].f[3]]) /\ o.contains = (m # <<>>)
            ELSE LET m == V2Of(s, o.k) IN
                 /\ o.get = FirstOf(m) /\ o.contains = (m # <<>>)
                 /\ o.all = IF m # <<>> /\ m[1].k = "text" THEN Split0(m[1].f[2]) ELSE <<>>
      [] ty = "Id3v1" -> o.contains = (\E i \in DOMAIN s : s[i].id = o.k)
      [] OTHER -> TRUE
ExtraOk(ty, s, e) ==
    CASE ty = "VorbisComments" -> e = VcPics(s)
      [] ty = "Mp4Ilst" -> LET i == FirstIx(s, LAMBDA x : x.id = "covr") IN
            e = IF i = 0 THEN <<>> ELSE
                LET f == s[i].f js == Filter([j \in 1..(Len(f) \div 2) |-> j], LAMBDA j : IsPicKind(f[2 * j - 1])) IN
                [j \in DOMAIN js |-> f[2 * js[j]]]
      [] ty = "Id3v2" -> LET c == Filter(s, LAMBDA x : x.k = "comm" /\ x.f[3] = "") u == Filter(s, LAMBDA x : x.k = "uslt") m == c \o u IN
            e = [i \in DOMAIN m |-> m[i].f[4]]
      [] OTHER -> TRUE
ObsOk(ty, s, o) ==
    /\ o.len = Len(s) /\ o.empty = (s = <<>>)
    /\ \A i \in DOMAIN o.keys : KeyOk(ty, s, o.keys[i])
    /\ ExtraOk(ty, s, o.extra)
    /\ ty = "Mp4Ilst" => o.flags = Append(IlstFlags(s), IlstRating(s))
=============================================================================
