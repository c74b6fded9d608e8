------------------------------- MODULE Tagged -------------------------------
(* A file held in memory as a list of tags, with a file type, next to the file
   on disk it was read from and another file it may be saved to.
     held   list of [type, items (pairs, ordered by key), pics]
     disk   the same, as a fresh reader sees the file *)
EXTENDS FileSpec

Primary(fmt) ==
    CASE fmt \in {"mpeg", "aac", "aiff", "wav"} -> "Id3v2"
      [] fmt \in {"ape", "mpc", "wv"} -> "Ape"
      [] fmt = "mp4" -> "Mp4Ilst"
      [] OTHER -> "VorbisComments"
OfType(h, ty) == Filter(h, LAMBDA t : t.type = ty)
Without(h, ty) == Filter(h, LAMBDA t : t.type # ty)
(* the list of tags after an operation on memory alone *)
SetItem(items, k, v) ==
    LET rest == Filter(items, LAMBDA i : i[1] # k) IN rest \o <<<<k, v>>>>
EditIn(h, n, k, v) == [h EXCEPT ![n].items = SetItem(@, k, v)]
IdxOf(h, ty) == {n \in DOMAIN h : h[n].type = ty}
First(S) == CHOOSE n \in S : \A m \in S : n <= m
(* how far an empty tag is a tag *)
Void(t) == t.items = <<>> /\ t.pics = <<>>

HeldAfter(h, ft, op) ==
    CASE op.a = "insert" -> IF op.tag.type \in Readable(ft) THEN Without(h, op.tag.type) \o <<op.tag>> ELSE h
      [] op.a = "remove" -> Without(h, op.type)
      [] op.a = "clear" -> <<>>
      [] op.a = "edit" -> IF IdxOf(h, op.type) = {} THEN h ELSE EditIn(h, First(IdxOf(h, op.type)), op.k, op.v)
      [] op.a = "primary" -> IF IdxOf(h, Primary(ft)) = {} THEN h ELSE EditIn(h, First(IdxOf(h, Primary(ft))), op.k, op.v)
      [] op.a = "first" -> IF h = <<>> THEN h ELSE EditIn(h, 1, op.k, op.v)
      [] op.a = "wipe" -> IF IdxOf(h, op.type) = {} THEN h ELSE [h EXCEPT ![First(IdxOf(h, op.type))].items = <<>>, ![First(IdxOf(h, op.type))].pics = <<>>]
      [] op.a = "changetype" -> Filter(h, LAMBDA t : t.type \in Readable(op.to))
      [] OTHER -> h
RetOf(h, ft, op) ==
    CASE op.a = "insert" -> IF op.tag.type \in Readable(ft) THEN OfType(h, op.tag.type) ELSE <<>>
      [] op.a = "remove" -> OfType(h, op.type)
      [] OTHER -> <<>>

NH(h) == Map(h, LAMBDA t : [t EXCEPT !.items = Bag(@)])
(* what a reader sees of a tag: items in an unspecified order of keys; the
   encoder of a Vorbis comment belongs to the file, not to the tag *)
SeenItems(t) == Bag(Filter(t.items, LAMBDA i : ~(t.type = "VorbisComments" /\ i[1] = "EncoderSoftware")))
SeenTag(t) == [type |-> t.type, items |-> SeenItems(t), pics |-> t.pics]
Seen(d) == {x \in {SeenTag(d[n]) : n \in DOMAIN d} : ~(x.items = Bag(<<>>) /\ x.pics = <<>>)}
(* what saving leaves behind: every held tag the type can be written with *)
RECURSIVE SaveAll(_, _, _, _)
SaveAll(d, h, ft, fmt) ==
    IF h = <<>> THEN [d |-> d, res |-> "ok"]
    ELSE LET t == h[1] IN
         IF t.type \notin Writable(ft) THEN SaveAll(d, Tail(h), ft, fmt)
         (* an empty tag removes its type, which only needs to be readable *)
         ELSE IF t.type \notin (IF Void(t) THEN Readable(fmt) ELSE Writable(fmt)) THEN [d |-> d, res |-> "err"]
         ELSE SaveAll({x \in d : x.type # t.type} \cup Seen(<<t>>), Tail(h), ft, fmt)

Default(p) == p = <<"ms0", "brNone", "srNone", "bdNone", "chNone", "cmNone">>
LooksBad(S, look) ==
    LET h == S.held IN
    (IF look.primary_type # Primary(S.ft) THEN <<"primary-type">> ELSE <<>>)
    \o (IF look.primary # OfType(h, Primary(S.ft)) THEN <<"primary">> ELSE <<>>)
    \o (IF look.first # FirstOf(h) THEN <<"first">> ELSE <<>>)
    \o (IF look.contains # (h # <<>>) THEN <<"contains-tag">> ELSE <<>>)
    \o (IF \E n \in DOMAIN look.types : LET x == look.types[n] IN
            \/ x.tag # FirstOf(OfType(h, x.ty)) \/ x.mut # x.tag
            \/ x.has # (OfType(h, x.ty) # <<>>)
            \/ x.read # (x.ty \in Readable(S.ft)) \/ x.write # (x.ty \in Writable(S.ft)) THEN <<"lookup">> ELSE <<>>)

IsSave(op) == op.a \in {"save", "saveother"}
(* e: [op, kind, fmt, pre, post, res, ret, look, samebytes] with pre and post [ft, held, disk, other, props] *)
TaggedBad(e) ==
    LET P == e.pre Q == e.post op == e.op IN
    IF op.a = "open" THEN
        (IF e.res # "ok" THEN <<"unreadable">>
         ELSE (IF Q.held # Q.disk THEN <<"open">> ELSE <<>>)
              \o (IF Q.ft # e.fmt THEN <<"file-type">> ELSE <<>>)
              \o (IF \E n, m \in DOMAIN Q.held : n # m /\ Q.held[n].type = Q.held[m].type THEN <<"two-of-a-type">> ELSE <<>>)
              \o (IF P.disk # Q.disk \/ P.other # Q.other \/ ~e.same THEN <<"disk-changed">> ELSE <<>>)
              \o LooksBad(Q, e.look))
    ELSE IF op.a = "close" THEN      \* a bound file gives its handle back, at the edited bytes
        (IF e.res # "ok" THEN <<"handle">> ELSE <<>>) \o (IF ~e.same THEN <<"disk-changed">> ELSE <<>>)
    ELSE
    LET w == IF IsSave(op) THEN SaveAll(Seen(IF op.a = "save" THEN P.disk ELSE P.other), P.held, P.ft, e.fmt) ELSE [d |-> {}, res |-> "ok"]
        held == IF op.a = "save" /\ e.kind = "bound" /\ e.res = "ok" THEN Filter(P.held, LAMBDA t : ~Void(t)) ELSE HeldAfter(P.held, P.ft, op) IN
    (IF NH(Q.held) # NH(held) THEN <<"held">> ELSE <<>>)
    \o (IF NH(e.ret) # NH(RetOf(P.held, P.ft, op)) THEN <<"returned">> ELSE <<>>)
    \o (IF e.res # w.res THEN <<"result">> ELSE <<>>)
    \o (IF IsSave(op) /\ Seen(IF op.a = "save" THEN Q.disk ELSE Q.other) # w.d THEN <<"stored">> ELSE <<>>)
    \o (IF op.a # "save" /\ (P.disk # Q.disk \/ ~e.same) THEN <<"disk-changed">> ELSE <<>>)
    \o (IF op.a # "saveother" /\ P.other # Q.other THEN <<"other-changed">> ELSE <<>>)
    \o (IF op.a = "changetype" /\ (Q.ft # op.to \/ ~Default(Q.props)) THEN <<"file-type">>
        ELSE IF op.a # "changetype" /\ (Q.ft # P.ft \/ Q.props # P.props) THEN <<"file-type">> ELSE <<>>)
    \o LooksBad(Q, e.look)
=============================================================================
