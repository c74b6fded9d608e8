------------------------------- MODULE Ratings -------------------------------
(* Star ratings: every tagger scales the five stars to a byte in its own way. *)
EXTENDS Common
WMP == "Windows Media Player 9 Series"
BEE == "MusicBee"
PICARD == "users@musicbrainz.org"
\* the highest raw value of one to four stars, and the value written for one to five
Upper(email, ty) ==
    IF email = PICARD THEN IF ty = "Id3v2" THEN <<51, 102, 153, 204>> ELSE <<5, 10, 15, 20>>
    ELSE IF ty = "Id3v2" \/ email = WMP THEN <<1, 64, 128, 196>> ELSE <<20, 40, 60, 80>>
Written(email, ty) == Append(Upper(email, ty), IF email = PICARD THEN IF ty = "Id3v2" THEN 255 ELSE 25
                                               ELSE IF ty = "Id3v2" \/ email = WMP THEN 255 ELSE 100)
Stars(email, ty, raw) == 1 + Cardinality({i \in 1..4 : raw > Upper(email, ty)[i]})
Rate(email, ty, stars) == Written(email, ty)[stars]
\* every star survives being written and read back
StarsSurvive == \A e \in {WMP, BEE, PICARD, "x@y"} : \A ty \in {"Id3v2", "VorbisComments"} : \A s \in 1..5 : Stars(e, ty, Rate(e, ty, s)) = s
=============================================================================
