------------------------------- MODULE TagOps -------------------------------
(* The generic tag: an ordered multimap of items plus a list of pictures.
   A state is [type, items, pics]; an item is [k, t, v, l, d] where t is
   "T"ext, "L"ocator or "B"inary; a picture is [pt, m, d, data].
   Apply(st, op) gives the successor state and the value returned by the call. *)
EXTENDS Common, Json, IOUtils

KeyMap == JsonDeserialize(IOEnv.SPEC_DIR \o "/keymap.json")   \* type -> key -> format key
V1Keys == {"TrackTitle", "TrackArtist", "AlbumTitle", "Comment", "TrackNumber",
           "Genre", "Year", "RecordingDate"}
Maps(type, k) == IF type = "Id3v1" THEN k \in V1Keys ELSE k \in DOMAIN KeyMap[type]

WithItems(st, is) == [st EXCEPT !.items = is]
WithPics(st, ps) == [st EXCEPT !.pics = ps]
R(st, ret) == [st |-> st, ret |-> ret]

NotKey(is, k) == SelectSeq(is, LAMBDA i : i.k # k)
OfKey(is, k) == SelectSeq(is, LAMBDA i : i.k = k)
IsEmptyV(i) == i.v = ""
Text(i) == i.t = "T"

Pred(op, i) ==
    CASE op.p = "all" -> TRUE
      [] op.p = "none" -> FALSE
      [] op.p = "empty" -> IsEmptyV(i)
      [] op.p = "text" -> Text(i)
      [] op.p = "nodesc" -> i.d = ""
      [] op.p = "val" -> i.v = op.x
      [] op.p = "key" -> i.k = op.x

Put(is, it) == Append(NotKey(is, it.k), it)          \* replace all of that key, append
TextItem(k, v) == [k |-> k, t |-> "T", v |-> v, l |-> "XXX", d |-> ""]
InsertChecked(st, it) == IF Maps(st.type, it.k) THEN WithItems(st, Put(st.items, it)) ELSE st

FieldKey == [artist |-> "TrackArtist", title |-> "TrackTitle", album |-> "AlbumTitle",
             genre |-> "Genre", comment |-> "Comment", track |-> "TrackNumber",
             track_total |-> "TrackTotal", disk |-> "DiscNumber", disk_total |-> "DiscTotal"]
Numeric == {"track", "track_total", "disk", "disk_total"}

Strs(is) == Map(SelectSeq(is, LAMBDA i : i.t \in {"T", "L"}), LAMBDA i : i.v)

Taken(st, k, P(_)) == R(WithItems(st, SelectSeq(st.items, LAMBDA i : ~(i.k = k /\ P(i)))),
                        SelectSeq(st.items, LAMBDA i : i.k = k /\ P(i)))

Apply(st, op) ==
    CASE op.a = "insert" ->
            IF Maps(st.type, op.item.k) THEN R(WithItems(st, Put(st.items, op.item)), Bool(TRUE))
                                        ELSE R(st, Bool(FALSE))
      [] op.a = "push" ->
            IF Maps(st.type, op.item.k) THEN R(WithItems(st, Append(st.items, op.item)), Bool(TRUE))
                                        ELSE R(st, Bool(FALSE))
      [] op.a = "insert_unchecked" -> R(WithItems(st, Put(st.items, op.item)), <<>>)
      [] op.a = "push_unchecked" -> R(WithItems(st, Append(st.items, op.item)), <<>>)
      [] op.a = "insert_text" -> R(InsertChecked(st, TextItem(op.k, op.v)), Bool(Maps(st.type, op.k)))
      [] op.a = "take" -> Taken(st, op.k, LAMBDA i : TRUE)
      [] op.a = "take_first" ->
            LET r == Taken(st, op.k, LAMBDA i : TRUE) IN R(r.st, FirstOf(r.ret))
      [] op.a = "take_filter" -> Taken(st, op.k, LAMBDA i : Pred(op, i))
      [] op.a = "take_strings" ->
            LET r == Taken(st, op.k, LAMBDA i : TRUE) IN R(r.st, Strs(r.ret))
      [] op.a = "remove_key" -> R(WithItems(st, NotKey(st.items, op.k)), <<>>)
      [] op.a = "retain" -> R(WithItems(st, SelectSeq(st.items, LAMBDA i : Pred(op, i))), <<>>)
      [] op.a = "remove_empty" -> R(WithItems(st, SelectSeq(st.items, LAMBDA i : ~IsEmptyV(i))), <<>>)
      [] op.a = "clear" -> R([st EXCEPT !.items = <<>>, !.pics = <<>>], <<>>)
      [] op.a = "re_map" ->
            R([st EXCEPT !.type = op.type, !.items = SelectSeq(st.items, LAMBDA i : Maps(op.type, i.k))], <<>>)
      [] op.a = "push_picture" -> R(WithPics(st, Append(st.pics, op.pic)), <<>>)
      [] op.a = "set_picture" ->
            R(WithPics(st, IF op.idx < Len(st.pics) THEN [st.pics EXCEPT ![op.idx + 1] = op.pic]
                                                    ELSE Append(st.pics, op.pic)), <<>>)
      [] op.a = "remove_picture" ->       \* precondition: idx in range
            R(WithPics(st, RemoveAt(st.pics, op.idx + 1)), <<st.pics[op.idx + 1]>>)
      [] op.a = "remove_picture_type" ->
            R(WithPics(st, SelectSeq(st.pics, LAMBDA p : p.pt # op.pt)), <<>>)
      [] op.a = "set" -> R(InsertChecked(st, TextItem(FieldKey[op.f], op.v)), <<>>)
      [] op.a = "unset" -> R(WithItems(st, NotKey(st.items, FieldKey[op.f])), <<>>)
      [] op.a = "new_checked" ->
            \* (for ID3v1 there is no key table, hence never a checked item)
            R(st, IF op.type # "Id3v1" /\ Maps(op.type, op.item.k)
                  THEN <<[op.item EXCEPT !.l = "XXX", !.d = ""]>> ELSE <<>>)

Allowed(st, op) ==
    CASE op.a = "remove_picture" -> op.idx < Len(st.pics)
      [] OTHER -> TRUE

(* ---- what every lookup must answer in a state ---- *)
ObsKey(st, k) ==
    LET is == OfKey(st.items, k) f == FirstOf(is) IN
    [k |-> k, get |-> f,
     string |-> IF f # <<>> /\ f[1].t = "T" THEN <<f[1].v>> ELSE <<>>,
     items |-> is,
     strings |-> Map(SelectSeq(is, LAMBDA i : i.t = "T"), LAMBDA i : i.v),
     locators |-> Map(SelectSeq(is, LAMBDA i : i.t = "L"), LAMBDA i : i.v),
     bytes |-> Map(SelectSeq(is, LAMBDA i : i.t = "B"), LAMBDA i : i.v),
     binary |-> IF f # <<>> /\ f[1].t = "B" THEN <<f[1].v>> ELSE <<>>,
     binconv |-> IF f # <<>> THEN <<f[1].v>> ELSE <<>>,
     contains |-> is # <<>>]

Acc(st, f) == LET o == ObsKey(st, FieldKey[f]).string IN
              IF f \in Numeric THEN (IF o = <<>> THEN <<>> ELSE U32Text(o[1])) ELSE o
ObsAcc(st) == [f \in DOMAIN FieldKey |-> Acc(st, f)]
ObsPt(st, pt) == [pt |-> pt, get |-> FirstOf(SelectSeq(st.pics, LAMBDA p : p.pt = pt))]

ObsOk(st, o) ==
    /\ \A i \in DOMAIN o.keys : o.keys[i] = ObsKey(st, o.keys[i].k)
    /\ \A i \in DOMAIN o.pt : o.pt[i] = ObsPt(st, o.pt[i].pt)
    /\ o.acc = ObsAcc(st)
    /\ o.len = Len(st.items) + Len(st.pics)
    /\ o.item_count = Len(st.items) /\ o.iter = Len(st.items)
    /\ o.picture_count = Len(st.pics)
    /\ o.empty = (st.items = <<>> /\ st.pics = <<>>)
    /\ o.specific = FALSE
=============================================================================
