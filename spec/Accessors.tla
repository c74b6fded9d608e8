----------------------------- MODULE Accessors -----------------------------
(* The common fields of a tag as a small database: which types store which
   field, which items a field owns, and what set / remove must do. *)
EXTENDS Common, Json, IOUtils

TextF == {"artist", "title", "album", "genre", "comment"}
NumF == {"track", "track_total", "disk", "disk_total"}
Fields == TextF \cup NumF \cup {"date"}
PairTypes == {"Id3v2", "Ape", "Mp4Ilst"}          \* number and total share one value
IsPair(type, generic) == ~generic /\ type \in PairTypes
Mate == [track |-> "track_total", track_total |-> "track", disk |-> "disk_total", disk_total |-> "disk"]

Supp(type, generic, f) ==
    CASE type = "AiffText" -> f \in {"artist", "title", "comment"}
      [] type = "Id3v1" -> f \in TextF \cup {"track", "date"}
      [] type = "RiffInfo" -> f \in Fields \ {"disk", "disk_total"}
      [] OTHER -> TRUE

\* the entries a field owns
VcIds == [artist |-> {"artist"}, title |-> {"title"}, album |-> {"album"}, genre |-> {"genre"}, comment |-> {"comment"},
          track |-> {"tracknumber", "tracknum"}, track_total |-> {"tracktotal", "totaltracks"}, disk |-> {"discnumber"},
          disk_total |-> {"disctotal", "totaldiscs"}, date |-> {"date", "year"}]
ApeIds == [artist |-> {"artist"}, title |-> {"title"}, album |-> {"album"}, genre |-> {"genre"}, comment |-> {"comment"},
           track |-> {"track"}, track_total |-> {"track"}, disk |-> {"disc"}, disk_total |-> {"disc"}, date |-> {"year"}]
RiffIds == [artist |-> {"iart"}, title |-> {"inam"}, album |-> {"iprd"}, genre |-> {"ignr"}, comment |-> {"icmt"},
            track |-> {"iprt"}, track_total |-> {"ifrm"}, disk |-> {}, disk_total |-> {}, date |-> {"icrd"}]
IlstIds == [artist |-> {"@ART"}, title |-> {"@nam"}, album |-> {"@alb"}, genre |-> {"@gen"}, comment |-> {"@cmt"},
            track |-> {"trkn"}, track_total |-> {"trkn"}, disk |-> {"disk"}, disk_total |-> {"disk"}, date |-> {"@day"}]
V2Ids == [artist |-> {"TPE1"}, title |-> {"TIT2"}, album |-> {"TALB"}, genre |-> {"TCON"}, comment |-> {"COMM"},
          track |-> {"TRCK"}, track_total |-> {"TRCK"}, disk |-> {"TPOS"}, disk_total |-> {"TPOS"}, date |-> {"TDRC"}]
V1Ids == [artist |-> {"artist"}, title |-> {"title"}, album |-> {"album"}, genre |-> {"genre"}, comment |-> {"comment"},
          track |-> {"track"}, track_total |-> {}, disk |-> {}, disk_total |-> {}, date |-> {"year"}]
AiffIds == [artist |-> {"AUTH"}, title |-> {"NAME"}, album |-> {}, genre |-> {}, comment |-> {"ANNO", "COMT"},
            track |-> {}, track_total |-> {}, disk |-> {}, disk_total |-> {}, date |-> {}]
GenIds == [artist |-> {"TrackArtist"}, title |-> {"TrackTitle"}, album |-> {"AlbumTitle"}, genre |-> {"Genre"}, comment |-> {"Comment"},
           track |-> {"TrackNumber"}, track_total |-> {"TrackTotal"}, disk |-> {"DiscNumber"}, disk_total |-> {"DiscTotal"}, date |-> {"RecordingDate", "Year"}]
Owns(type, generic, f, x) ==
    IF x.k = "pic" THEN FALSE
    ELSE IF generic THEN x.id \in GenIds[f]
    ELSE CASE type = "VorbisComments" -> Lower(x.id) \in VcIds[f]
           [] type = "Ape" -> Lower(x.id) \in ApeIds[f]
           [] type = "RiffInfo" -> Lower(x.id) \in RiffIds[f]
           [] type = "Mp4Ilst" -> x.id \in IlstIds[f]
           [] type = "Id3v2" -> x.id \in V2Ids[f] /\ (f = "comment" => x.k = "comm" /\ x.f[3] = "")
           [] type = "Id3v1" -> x.id \in V1Ids[f]
           [] type = "AiffText" -> x.id \in AiffIds[f]
Unrelated(type, generic, f, items) == Filter(items, LAMBDA x : ~Owns(type, generic, f, x))

\* a pair without a number is stored as "0/total": a number 0 is no number there
\* (and in an ilst pair a total 0 is no total)
Norm(s, f) ==
    IF IsPair(s.type, s.generic) /\ s.acc[f] = <<"0">> /\ (f \in {"track", "disk"} \/ (s.type = "Mp4Ilst" /\ f \in {"track_total", "disk_total"}))
    THEN <<>> ELSE s.acc[f]

SetOk(pre, f, v, post) ==
    IF ~Supp(pre.type, pre.generic, f)
    THEN \/ post = pre
         \* (a generic tag may hold items its type cannot store, put there unchecked)
         \/ pre.generic /\ Unrelated(pre.type, TRUE, f, post.items) = Unrelated(pre.type, TRUE, f, pre.items)
    ELSE /\ Norm(post, f) = <<v>>
         /\ \A g \in Fields \ {f} : Norm(post, g) = Norm(pre, g)
         /\ Unrelated(pre.type, pre.generic, f, post.items) = Unrelated(pre.type, pre.generic, f, pre.items)
UnsetOk(pre, f, post) ==
    IF ~Supp(pre.type, pre.generic, f) /\ ~pre.generic THEN post = pre
    ELSE /\ Norm(post, f) = <<>>
         /\ \A g \in Fields \ {f} :
               \/ Norm(post, g) = Norm(pre, g)
               \* removing the number of a pair removes the pair
               \/ IsPair(pre.type, pre.generic) /\ f \in {"track", "disk"} /\ g = Mate[f] /\ Norm(post, g) = <<>>
         /\ Unrelated(pre.type, pre.generic, f, post.items) = Unrelated(pre.type, pre.generic, f, pre.items)
\* what a field owned last is what is stored: no stale entry can come back
Reads(s, f) == Norm(s, f)
=============================================================================
