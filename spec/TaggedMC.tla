------------------------------ MODULE TaggedMC ------------------------------
(* Every short history of a tagged file next to its file on disk. *)
EXTENDS Tagged, Json
CONSTANTS Fmt, Kind, Depth
VARIABLES st, start, hist, last
vars == <<st, start, hist, last>>
Items(c) == CASE c = "A" -> <<<<"TrackTitle", "t1">>>> [] c = "B" -> <<<<"TrackArtist", "ar">>, <<"TrackTitle", "second">>>> [] OTHER -> <<>>
Tg(ty, c) == [type |-> ty, items |-> Items(c), pics |-> <<>>]
NoOp == [a |-> "", type |-> "", k |-> "", v |-> "", to |-> "", tag |-> Tg("", "")]
Unsup == CHOOSE ty \in TagTypes : ty \notin Readable(Fmt)
OtherTypes == CASE Fmt \in {"mpeg", "ape"} -> {"wv", "aac"} [] Fmt = "wv" -> {"ape", "mpc"} [] Fmt \in {"wav", "aiff"} -> {"mpeg"} [] Fmt = "flac" -> {"opus", "mpeg"}
            [] Fmt = "mpc" -> {"mpeg", "wv"} [] Fmt \in {"opus", "vorbis", "speex"} -> {"flac", "mp4"} [] OTHER -> {"mpeg"}
Ops ==
    {[NoOp EXCEPT !.a = "insert", !.tag = Tg(ty, c)] : ty \in Readable(Fmt) \cup {Unsup}, c \in {"A", "B", ""}}
    \cup {[NoOp EXCEPT !.a = x, !.type = ty] : x \in {"remove", "wipe"}, ty \in Readable(Fmt)}
    \cup {[NoOp EXCEPT !.a = "remove", !.type = Unsup]}
    \cup {[NoOp EXCEPT !.a = x, !.k = "TrackTitle", !.v = "ed"] : x \in {"primary", "first"}}
    \cup {[NoOp EXCEPT !.a = "edit", !.type = ty, !.k = "TrackArtist", !.v = "by"] : ty \in Readable(Fmt)}
    \cup {[NoOp EXCEPT !.a = x] : x \in {"clear", "save", "saveother"}}
    \cup {[NoOp EXCEPT !.a = "open"]}
    \cup (IF Kind = "tagged" THEN {[NoOp EXCEPT !.a = "changetype", !.to = x] : x \in OtherTypes} ELSE {})

Disks == {<<>>} \cup {SetToSeq({Tg(ty, "A") : ty \in Writable(Fmt)})} \cup {<<Tg(ty, "B")>> : ty \in Writable(Fmt)}
(* the order tags are held in after reading is the order of the file's formats: here any *)
State(ft, held, disk, other, props) == [ft |-> ft, held |-> held, disk |-> disk, other |-> other, props |-> props]
Zero == <<"ms0", "brNone", "srNone", "bdNone", "chNone", "cmNone">>
Look(S) ==
    [primary_type |-> Primary(S.ft), primary |-> OfType(S.held, Primary(S.ft)), first |-> FirstOf(S.held), contains |-> S.held # <<>>,
     types |-> SetToSeq({[ty |-> ty, tag |-> OfType(S.held, ty), mut |-> OfType(S.held, ty), has |-> \E n \in DOMAIN S.held : S.held[n].type = ty,
                          read |-> ty \in Readable(S.ft), write |-> ty \in Writable(S.ft)] : ty \in TagTypes})]
(* one tag written over the tag of its type, as the file formats do *)
Put(d, t) == IF IdxOf(d, t.type) # {} THEN (IF Void(t) THEN Without(d, t.type) ELSE [d EXCEPT ![First(IdxOf(d, t.type))] = t])
             ELSE IF Void(t) THEN d ELSE Append(d, t)
RECURSIVE Store(_, _, _)
Store(d, h, ft) ==
    IF h = <<>> THEN [d |-> d, res |-> "ok"]
    ELSE IF h[1].type \notin Writable(ft) THEN Store(d, Tail(h), ft)
    ELSE IF h[1].type \notin (IF Void(h[1]) THEN Readable(Fmt) ELSE Writable(Fmt)) THEN [d |-> d, res |-> "err"]
    ELSE Store(Put(d, h[1]), Tail(h), ft)
Init == \E d \in Disks : st = State(Fmt, d, d, d, <<"p">>) /\ start = d /\ hist = <<>> /\ last = <<>>
Next ==
    /\ Len(hist) < Depth
    /\ \E op \in Ops :
        LET s1 == Store(IF op.a = "save" THEN st.disk ELSE st.other, st.held, st.ft)
            q == CASE op.a = "save" -> [st EXCEPT !.disk = s1.d, !.held = IF Kind = "bound" /\ s1.res = "ok" THEN SelectSeq(@, LAMBDA t : ~Void(t)) ELSE @]
                   [] op.a = "saveother" -> [st EXCEPT !.other = s1.d]
                   [] op.a = "open" -> [st EXCEPT !.held = st.disk, !.ft = Fmt, !.props = <<"p">>]
                   [] op.a = "changetype" -> [st EXCEPT !.held = HeldAfter(@, st.ft, op), !.ft = op.to, !.props = Zero]
                   [] OTHER -> [st EXCEPT !.held = HeldAfter(@, st.ft, op)] IN
        /\ st' = q /\ start' = start /\ hist' = Append(hist, op)
        /\ last' = <<[op |-> op, kind |-> Kind, fmt |-> Fmt, pre |-> st, post |-> q, res |-> IF IsSave(op) THEN s1.res ELSE "ok",
                      ret |-> RetOf(st.held, st.ft, op), look |-> Look(q), same |-> st.disk = q.disk]>>
        /\ (Len(hist') = Depth => PrintT("SCN " \o ToJson([fmt |-> Fmt, kind |-> Kind, disk |-> start, ops |-> hist'])))
Spec == Init /\ [][Next]_vars
Inv == last # <<>> => TaggedBad(last[1]) = <<>>
OneOfEach == \A n, m \in DOMAIN st.held : n # m => st.held[n].type # st.held[m].type
Supported == \A n \in DOMAIN st.held : st.held[n].type \in Readable(st.ft)
(* tags the file holds and memory does not stay as they are *)
Untouched == [][\A ty \in TagTypes : (hist' # <<>> /\ hist'[Len(hist')].a = "save" /\ OfType(st.held, ty) = <<>>) => OfType(st'.disk, ty) = OfType(st.disk, ty)]_vars
=============================================================================
