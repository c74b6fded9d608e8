------------------------------- MODULE Views -------------------------------
(* What a file shows under the parse options: the view with an option switched
   off is the full view without what the option names. Evaluated on the design
   model (ViewsMC) and on views recorded from the real code (ViewsTrace). *)
EXTENDS FileSpec
IsPic(ty, i) ==
    CASE ty = "Id3v2" -> i.id = "APIC"
      [] ty = "VorbisComments" -> i.k = "pic"
      [] ty = "Mp4Ilst" -> i.id = "covr"
      [] ty = "Ape" -> Prefix(Lower(i.id), "cover art (")
      [] OTHER -> FALSE
NonEmpty(ts) == Filter(ts, LAMBDA t : t.items # <<>>)
NonEmptyG(ts) == Filter(Map(ts, LAMBDA t : [t EXCEPT !.items = Filter(@, LAMBDA i : ~(i.k = "EncoderSoftware" /\ i.v = ""))]), LAMBDA t : t.items # <<>> \/ t.pics # <<>>)
NoArt(ts) == NonEmpty(Map(ts, LAMBDA t : [t EXCEPT !.items = Filter(@, LAMBDA i : ~IsPic(t.type, i))]))
NoArtG(ts) == NonEmptyG(Map(ts, LAMBDA t : [t EXCEPT !.pics = <<>>]))
Names == <<"ms", "br", "sr", "bd", "ch", "cm">>
(* the default of a format's own properties may name a default channel layout *)
IsDefault(p) == Len(p) = 6 /\ p[1] = "ms0" /\ \A i \in 2..5 : p[i] \in {Names[i] \o "None", Names[i] \o "Some(0)"}
SeenTags(V, o) == IF ~o.tags THEN <<>> ELSE IF ~o.art THEN NoArt(V.tags) ELSE NonEmpty(V.tags)
SeenGen(V, o) == IF ~o.tags THEN <<>> ELSE IF ~o.art THEN NoArtG(V.gen) ELSE NonEmptyG(V.gen)
Level == [strict |-> 1, best |-> 2, relaxed |-> 3]
ViewBad(V, o, W) ==
    IF V.res # "ok" \/ (o.mode = "strict" /\ ~o.wf) THEN <<>>
    ELSE IF W.res # "ok" \/ W.gres # "ok" THEN <<"refused">>
    ELSE (IF NonEmpty(W.tags) # SeenTags(V, o) THEN <<"tags">> ELSE <<>>)
         \o (IF NonEmptyG(W.gen) # SeenGen(V, o) THEN <<"generic-tags">> ELSE <<>>)
         \o (IF o.props THEN (IF W.props # V.props THEN <<"properties">> ELSE <<>>)
             ELSE IF ~IsDefault(W.props) THEN <<"default-properties">> ELSE <<>>)
ModesBad(W1, W2) ==      \* two views that differ only in mode, the second more lenient
    (IF W1.res = "ok" /\ W2.res # "ok" THEN <<"lenient-refuses">> ELSE <<>>)
    \o (IF W1.gres = "ok" /\ W2.gres # "ok" THEN <<"lenient-refuses-generic">> ELSE <<>>)
=============================================================================
