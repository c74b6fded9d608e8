------------------------------- MODULE ConvMC -------------------------------
(* Design model: a format tag (its content) is split into generic items and a
   remainder, the generic items are edited, and merged back.  Every explored
   history becomes a conformance scenario. *)
EXTENDS Conv
CONSTANTS Type, Pool, Edits
VARIABLES phase, gen, rem, orig, op
vars == <<phase, gen, rem, orig, op>>

I(k, v) == [k |-> k, t |-> "T", v |-> v, l |-> "XXX", d |-> ""]
Dates == {"RecordingDate", "OriginalReleaseDate", "ReleaseDate", "EncodingTime", "TaggingTime", "Year"}
Nums == {"TrackNumber", "TrackTotal", "DiscNumber", "DiscTotal", "MovementNumber", "MovementTotal"}
Value(k, n) ==
    CASE k \in FlagKeys -> IF n = 1 THEN "1" ELSE "true"
      [] k = "ParentalAdvisory" -> IF n = 1 THEN "2" ELSE "4"
      [] k = "Popularimeter" -> IF n = 1 THEN "MusicBee|3|5" ELSE "users@musicbrainz.org|5|0"
      [] k \in Nums -> IF n = 1 THEN "3" ELSE "12"
      [] k \in Dates -> IF n = 1 THEN "2020" ELSE "1999"
      [] k = "Genre" -> IF n = 1 THEN "Rock" ELSE "Jazz"
      [] OTHER -> IF n = 1 THEN "a" ELSE "b c"
AllKeys == KeysOf(Type) \ (IF Type = "RiffInfo" THEN {"Popularimeter"} ELSE {})
PoolKeys == AllKeys \cap {"TrackTitle", "TrackArtist", "Comment", "TrackNumber", "TrackTotal", "Genre", "RecordingDate", "MusicBrainzRecordingId",
                          "Producer", "MixDj", "FlagCompilation", "Barcode", "EncoderSoftware", "Popularimeter", "UnsyncLyrics", "MovementTotal", "Publisher"}
Items == {<<I(k, Value(k, n))>> : k \in AllKeys, n \in {1, 2}}
         \cup {<<I(k, Value(k, 1)), I(k, Value(k, 2))>> : k \in AllKeys \cap (MultiKeys \cup DOMAIN TIPL)}
         \cup IF Pool THEN {<<I(a, Value(a, 1)), I(b, Value(b, 2))>> : a \in PoolKeys, b \in PoolKeys} \ {<<I("RecordingDate", Value("RecordingDate", 1)), I("RecordingDate", Value("RecordingDate", 2))>>} ELSE {}  \* (one date only)
C(id, k, f) == [id |-> id, k |-> k, f |-> f, fl |-> ""]
\* what the generic form has no words for
Extra ==
    CASE Type = "Id3v2" -> <<C("PRIV", "priv", <<"o", "x">>), C("TXXX", "txxx", <<"U8", "my own", "x">>), C("TIPL", "kv", <<"U8", "poet", "p">>), C("TIT9", "text", <<"U8", "t">>)>>
      [] Type = "Mp4Ilst" -> <<C("abcd", "", <<"u8", "x">>), C("----:m:n", "", <<"0", "y">>)>>
      [] Type = "Ape" -> <<C("my own", "T", <<"x">>), C("bin", "B", <<"y">>)>>
      [] Type = "VorbisComments" -> <<C("MY OWN", "", <<"x">>)>>
      [] OTHER -> <<>>
ExtraC == Logical(Type, Extra)
Edit(k) == {[a |-> "insert", item |-> I(k, Value(k, 2))], [a |-> "remove", k |-> k]} \cup
           (IF Keeps(Type, IdOf(Type, k)) /\ ~InPair(Type, k) /\ Type \notin {"Id3v1", "AiffText"} /\ k \notin {"FlagCompilation", "RecordingDate"}
            THEN {[a |-> "push", item |-> I(k, Value(k, 2))]} ELSE {})
EditKeys == PoolKeys \ {"EncoderSoftware", "Popularimeter"}

(* ---- splitting a content into generic items: the inverse reading ---- *)
KeyFor(id) == CHOOSE k \in AllKeys : IdOf(Type, k) = id
Un(e) ==
    IF \E i \in DOMAIN Pairs(Type) : Pairs(Type)[i][1] = e.id
    THEN LET p == CHOOSE p \in ToSet(Pairs(Type)) : p[1] = e.id  h == SplitAt(e.v, "/") IN
         <<I(p[2], h[1])>> \o IF Len(h) > 1 THEN <<I(p[3], h[2])>> ELSE <<>>
    ELSE IF Pre(e.id, "COMM|") \/ Pre(e.id, "USLT|") THEN <<[I(IF Pre(e.id, "COMM") THEN "Comment" ELSE "UnsyncLyrics", e.v) EXCEPT !.l = SubSeq(e.id, 6, 8), !.d = Sub(e.id, 10)]>>
    ELSE IF Pre(e.id, "POPM|") THEN <<I("Popularimeter", Sub(e.id, 6) \o "|" \o e.v)>>
    ELSE IF Pre(e.id, "rating|") THEN <<I("Popularimeter", Sub(e.id, 8) \o "|" \o e.v \o "|0")>>
    ELSE IF \E k \in AllKeys : IdOf(Type, k) = e.id THEN <<I(KeyFor(e.id), IF Type = "Id3v1" /\ e.id = "genre" THEN GenreName(e.v) ELSE e.v)>>
    ELSE <<>>
SplitGen(c) == Flat([i \in DOMAIN c |-> Un(c[i])])
SplitRem(c) == Filter(c, LAMBDA e : Un(e) = <<>>)
MergeC(r, g) == r \o Exp(Type, g)
DoEdit(g, o) == CASE o.a = "insert" -> Append(Filter(g, LAMBDA i : i.k # o.item.k), o.item)
                  [] o.a = "push" -> Append(g, o.item)
                  [] o.a = "remove" -> Filter(g, LAMBDA i : i.k # o.k)

Init == /\ phase = "tag" /\ rem = <<>> /\ op = <<>>
        /\ gen \in Items
        /\ orig = Exp(Type, gen) \o ExtraC
Split == /\ phase = "tag" /\ phase' = "split"
         /\ gen' = SplitGen(orig) /\ rem' = SplitRem(orig) /\ UNCHANGED <<orig, op>>
         /\ PrintT("SCN " \o ToJson([to |-> TRUE, split |-> TRUE, tag |-> [type |-> Type, items |-> gen, pics |-> <<>>], extra |-> Extra, ops |-> <<>>]))
EditIt == /\ phase = "split" /\ Edits /\ op = <<>>
          /\ \E k \in EditKeys : \E o \in Edit(k) :
              /\ gen' = DoEdit(gen, o) /\ op' = <<o>>
              /\ PrintT("SCN " \o ToJson([to |-> TRUE, split |-> TRUE, tag |-> [type |-> Type, items |-> gen, pics |-> <<>>], extra |-> Extra, ops |-> <<o>>]))
          /\ UNCHANGED <<phase, rem, orig>>
Merge == /\ phase = "split" /\ phase' = "done"
         /\ orig' = MergeC(rem, gen) /\ UNCHANGED <<gen, rem, op>>
Next == Split \/ EditIt \/ Merge
Spec == Init /\ [][Next]_vars

EKey == IF op[1].a = "remove" THEN op[1].k ELSE op[1].item.k
EId == LET id == IdOf(Type, EKey) IN IF Type = "Id3v2" /\ EKey \in {"Comment", "UnsyncLyrics"} THEN id \o "|XXX|" ELSE id
Inv ==
    /\ StarsSurvive
    /\ phase = "split" /\ op = <<>> => Same(MergeC(rem, gen), orig)              \* splitting and merging lose nothing
    /\ phase = "split" /\ op # <<>> =>
        LET m == MergeC(rem, gen) IN
        /\ \A id \in (Ids(orig) \cup Ids(m)) \ {EId} : ValsOf(m, id) = ValsOf(orig, id)      \* an edit touches nothing else
        /\ op[1].a = "remove" /\ ~InPair(Type, EKey) /\ (\A k \in AllKeys \ {EKey} : IdOf(Type, k) # EId) => EId \notin Ids(m)
        /\ op[1].a = "insert" /\ ~InPair(Type, EKey) => op[1].item.k \in DOMAIN [k \in {op[1].item.k} |-> 0] /\ ValsOf(m, EId) # <<>>
=============================================================================
