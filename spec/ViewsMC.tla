------------------------------ MODULE ViewsMC ------------------------------
(* Every layout of a format under every combination of the parse options. A
   reader takes the regions in order; an option that is off skips the regions
   (or the items in them) that it names. *)
EXTENDS FileModel, Views, Json
CONSTANTS Fmt, Full
VARIABLES lay, o, i, seen
vars == <<lay, o, i, seen>>
Opts == [tags : BOOLEAN, props : BOOLEAN, art : BOOLEAN, impl : BOOLEAN, mode : {"strict", "best", "relaxed"}]
DefO == [tags |-> TRUE, props |-> TRUE, art |-> TRUE, impl |-> TRUE, mode |-> "best"]
(* a region of a tag shows one picture and one other item *)
PicItem(ty) == CASE ty = "Id3v2" -> <<[id |-> "APIC", k |-> "apic", f |-> <<>>, fl |-> ""]>> [] ty = "VorbisComments" -> <<[id |-> "pic", k |-> "pic", f |-> <<>>, fl |-> ""]>>
                 [] ty = "Mp4Ilst" -> <<[id |-> "covr", k |-> "", f |-> <<>>, fl |-> ""]>> [] ty = "Ape" -> <<[id |-> "Cover Art (Front)", k |-> "B", f |-> <<>>, fl |-> ""]>> [] OTHER -> <<>>
Ty(r) == IF r.ty = "FlacPicture" THEN "VorbisComments" ELSE r.ty
Show(r, opt) ==
    IF ~opt.tags THEN <<>>
    ELSE IF r.ty = "FlacPicture" THEN (IF opt.art THEN PicItem("VorbisComments") ELSE <<>>)
    ELSE <<Item("x")>> \o (IF opt.art THEN PicItem(r.ty) ELSE <<>>)
Empty == [res |-> "ok", gres |-> "ok", tags |-> <<>>, gen |-> <<>>, props |-> <<"ms0", "brNone", "srNone", "bdNone", "chNone", "cmNone">>]
AddTag(ts, ty, items) == IF items = <<>> THEN ts
    ELSE IF \E k \in DOMAIN ts : ts[k].type = ty THEN [k \in DOMAIN ts |-> IF ts[k].type = ty THEN [ts[k] EXCEPT !.items = @ \o items] ELSE ts[k]]
    ELSE Append(ts, [type |-> ty, hd |-> <<>>, items |-> items])
Take(V, r, opt) ==
    CASE r.k = "tag" -> [V EXCEPT !.tags = AddTag(@, Ty(r), Show(r, opt))]
      [] r.k = "audio" /\ opt.props -> [V EXCEPT !.props = <<"p">>]
      [] OTHER -> V
RECURSIVE All(_, _, _)
All(V, L, opt) == IF L = <<>> THEN V ELSE All(Take(V, L[1], opt), Tail(L), opt)
Init == lay \in Layouts(Fmt, Full) /\ o \in Opts /\ i = 0 /\ seen = Empty
Next ==
    /\ i < Len(lay)
    /\ i' = i + 1 /\ seen' = Take(seen, lay[i + 1], o) /\ UNCHANGED <<lay, o>>
    /\ (i' = Len(lay) /\ o = DefO => PrintT("SCN " \o ToJson([fmt |-> Fmt, parts |-> [k \in DOMAIN lay |-> lay[k].tok]])))
Spec == Init /\ [][Next]_vars
Inv == i = Len(lay) => ViewBad(All(Empty, lay, DefO), o @@ [wf |-> TRUE], seen) = <<>>
=============================================================================
