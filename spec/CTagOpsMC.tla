----------------------------- MODULE CTagOpsMC -----------------------------
(* Exhaustive exploration of each tag type's collection operations; every
   explored transition becomes a conformance scenario (state, operation). *)
EXTENDS CTagOps
CONSTANTS Type, MaxItems, Rich
VARIABLES st, last
vars == <<st, last>>
X(id, k, f) == [id |-> id, k |-> k, f |-> f, fl |-> ""]
PicF(pt, d) == <<pt, "image/png", "-", d, "1", "2", "8", "0">>

Items ==
    CASE Type = "VorbisComments" -> {X(k, "", <<v>>) : k \in {"TITLE", "Title", "A B"}, v \in {"1", ""}} \cup
                                    (IF Rich THEN {X("TITL", "", <<"1">>)} ELSE {})
      [] Type = "Ape" -> {X("Title", "T", <<"a">>), X("TITLE", "T", <<"b">>), X("title", "L", <<"c">>), X("Artist", "L", <<"d">>), X("artist", "B", <<"e">>)}
      [] Type = "RiffInfo" -> {X(k, "", <<v>>) : k \in {"INAM", "inam", "IART", "AB  "}, v \in {"1", "2"}}
      [] Type = "Mp4Ilst" -> {X("@nam", "", <<"u8", "a">>), X("@nam", "", <<"si", "1", "u8", "b">>), X("----:m:n", "", <<"u8", "c">>),
                              X("rtng", "", <<"si", "9">>), X("rtng", "", <<"si", "2">>), X("pcst", "", <<"bool", "false">>), X("covr", "", <<"pic:image/png", "p">>)}
      [] Type = "Id3v2" -> {X("TIT2", "text", <<"U8", "a">>), X("TPE1", "text", <<"L1", "b">>), X("TXXX", "txxx", <<"U8", "d", "1">>), X("TXXX", "txxx", <<"U8", "D", "2">>),
                            X("COMM", "comm", <<"U8", "eng", "", "x">>), X("COMM", "comm", <<"U8", "deu", "", "y">>), X("MCDI", "bin", <<"z">>), X("MCDI", "bin", <<"w">>),
                            X("PRIV", "priv", <<"o", "1">>), X("PRIV", "priv", <<"o", "2">>), X("TDRC", "ts", <<"U8", "2020">>), X("TDRC", "ts", <<"U8", "2021">>),
                            X("APIC", "apic", <<"U8", "1", "image/png", "-", "p">>), X("POPM", "popm", <<"a", "1", "2">>), X("POPM", "popm", <<"a", "3", "4">>)}
Bad ==   \* keys the format does not accept
    CASE Type = "VorbisComments" -> {X("A=B", "", <<"v">>), X("", "", <<"v">>), X("A~", "", <<"v">>), X("~u1", "", <<"v">>)}
      [] Type = "Ape" -> {X("a", "T", <<"v">>), X("TAG", "T", <<"v">>), X("oggs", "L", <<"v">>), X("~u2", "T", <<"v">>), X("Mp+", "B", <<"v">>)}
      [] Type = "RiffInfo" -> {X("ABC", "", <<"v">>), X("ABCDE", "", <<"v">>), X("A CD", "", <<"v">>), X("~u2", "", <<"v">>)}
      [] OTHER -> {}
Keys ==
    CASE Type = "VorbisComments" -> <<"title", "TITLE", "A B", "X=", "~">>
      [] Type = "Ape" -> <<"TITLE", "ARTIST", "Artist", "zz">>
      [] Type = "RiffInfo" -> <<"INAM", "iNaM", "IART", "AB", "AB  ">>
      [] Type = "Mp4Ilst" -> <<"@nam", "----:m:n", "----:m:N", "covr", "rtng", "pcst">>
      [] Type = "Id3v2" -> <<"TIT2", "TPE1", "TXXX:d", "TXXX:D", "COMM", "MCDI", "PRIV", "TDRC", "APIC", "TXXX">>
RKeys == {Keys[i] : i \in DOMAIN Keys} \ (IF Type = "Id3v2" THEN {"TXXX:d", "TXXX:D"} ELSE {})

Ops ==
    {[a |-> "clear"]} \cup
    CASE Type = "VorbisComments" ->
            {[a |-> a, item |-> x] : a \in {"push", "insert"}, x \in Items \cup Bad}
            \cup {[a |-> a, key |-> k] : a \in {"remove", "remove_unread"}, k \in RKeys}
            \cup {[a |-> "take_items"], [a |-> "remove_pics"], [a |-> "set_vendor", key |-> "vv"]}
            \cup {[a |-> "insert_pic", item |-> X("pic", "pic", PicF(pt, d))] : pt \in {"1", "2", "3"}, d \in {"p", "q"}}
            \cup {[a |-> "insert_pic", item |-> X("pic", "pic", <<pt, "image/png", "-", d>>)] : pt \in {"1", "3"}, d \in {"~p20", "~b9"}}
            \cup {[a |-> "set_pic", idx |-> i, item |-> X("pic", "pic", PicF(pt, "r"))] : i \in 0..3, pt \in {"1", "3"}}
            \cup {[a |-> "remove_pic", idx |-> i] : i \in 0..2}
            \cup {[a |-> "remove_pic_type", pt |-> i] : i \in {1, 3}}
      [] Type = "Ape" -> {[a |-> a, item |-> x] : a \in {"push", "insert"}, x \in Items \cup Bad} \cup {[a |-> "remove", key |-> k] : k \in RKeys}
      [] Type = "RiffInfo" -> {[a |-> "insert", item |-> x] : x \in Items \cup Bad} \cup {[a |-> "remove", key |-> k] : k \in RKeys}
      [] Type = "Mp4Ilst" ->
            {[a |-> a, item |-> x] : a \in {"insert", "replace"}, x \in Items}
            \cup {[a |-> a, key |-> k] : a \in {"remove", "remove_unread", "retain_not"}, k \in RKeys}
            \cup {[a |-> "set_flag", key |-> k, v |-> v] : k \in {"pcst", "cpil", "pgap", "shwm", "hdvd"}, v \in {"true", "false"}}
            \cup {[a |-> "set_rating", v |-> v] : v \in {"0", "1", "2"}}
            \cup {[a |-> "insert_pic", item |-> X("pic", "pic", <<"3", m, "-", "q">>)] : m \in {"image/jpeg", "-"}}
            \cup {[a |-> "remove_pics"]}
      [] Type = "Id3v2" ->
            {[a |-> "insert", item |-> x] : x \in Items}
            \cup {[a |-> a, key |-> k] : a \in {"remove", "remove_unread", "retain_not"}, k \in RKeys}
            \cup {[a |-> "insert_ut", key |-> k, v |-> "n"] : k \in {"d", "D", "e"}}
            \cup {[a |-> "remove_ut", key |-> k] : k \in {"d", "D", "e"}}
            \cup {[a |-> "insert_multi", key |-> "TIT2", vs |-> <<"p", "q", "r">>]}
            \cup {[a |-> "insert_pic", item |-> X("pic", "pic", <<pt, "image/png", "-", d>>)] : pt \in {"1", "2", "3"}, d \in {"p", "q"}}
            \cup {[a |-> "remove_pic_type", pt |-> i] : i \in {1, 3}}
Allowed(s, op) ==
    /\ op.a = "remove_pic" => op.idx < Len(VcPics(s))
    \* a flag or cover holds one kind of data only
    /\ (op.a = "insert" /\ Type = "Mp4Ilst") => TRUE

NoInfo(op) == op.a = "insert_pic" /\ Len(op.item.f) = 4 /\ Type = "VorbisComments"
Init == st = <<>> /\ last = [op |-> [a |-> "init"], pre |-> <<>>, ret |-> <<>>]
Step(op) ==
    /\ Allowed(st, op)
    /\ LET r == IF NoInfo(op) THEN R(st, NoRet) ELSE Apply(Type, st, op) IN
       /\ Len(r.items) <= MaxItems
       /\ \A i \in DOMAIN r.items : Len(r.items[i].f[1]) <= 5 /\ (Type = "Mp4Ilst" => Len(r.items[i].f) <= 4)
       /\ PrintT("SCN " \o ToJson([init |-> [type |-> Type, hd |-> <<>>, items |-> st], ops |-> <<op>>, keys |-> Keys]))
       /\ st' = r.items /\ last' = [op |-> op, pre |-> st, ret |-> r.ret]
Next == \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_vars
View == st

(* ------- the property on the design ------- *)
Same(a, b) == IF Type \in {"VorbisComments", "Ape", "RiffInfo"} THEN EqCI(a, b) ELSE a = b
KeyOfOp == IF "item" \in DOMAIN last.op THEN last.op.item.id ELSE IF "key" \in DOMAIN last.op THEN last.op.key ELSE ""
Keyed == last.op.a \in {"push", "insert", "remove", "remove_unread", "replace", "retain_not", "set_flag"}
Others(s) == Filter(s, LAMBDA x : ~Same(x.id, KeyOfOp))
Mine(s) == Filter(s, LAMBDA x : Same(x.id, KeyOfOp))
Inv ==
    /\ Keyed => Others(st) = Others(last.pre)                       \* unrelated entries keep their values and their order
    /\ last.op.a \in {"remove", "remove_unread", "retain_not"} => Mine(st) = <<>>
    /\ last.op.a = "remove" /\ Type \in {"Mp4Ilst", "Id3v2"} => last.ret = Mine(last.pre)
    /\ last.op.a = "remove" /\ Type \in {"VorbisComments", "RiffInfo"} => last.ret = Vals(Mine(last.pre))
    /\ last.op.a = "insert" /\ Type \in {"VorbisComments", "Ape", "RiffInfo"} /\ last.op.item \notin Bad => Len(Mine(st)) = 1 /\ Mine(st)[1].f = last.op.item.f
    /\ last.op.a = "insert" /\ Type = "Id3v2" => st[Len(st)] = last.op.item /\ Len(st) = Len(last.pre) + 1 - Len(last.ret)
    /\ Type \in {"Ape", "RiffInfo", "Mp4Ilst"} => \A i, j \in DOMAIN st : i # j => ~Same(st[i].id, st[j].id)
    /\ Type = "VorbisComments" => \A i, j \in DOMAIN st : (i # j /\ VcIsPic(st[i]) /\ VcIsPic(st[j]) /\ st[i].f[1] \in IconTypes) => st[i].f[1] # st[j].f[1]
=============================================================================
