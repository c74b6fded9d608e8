------------------------------- MODULE ProbeMC -------------------------------
(* Content is composed: an optional prefix, a body, a cut; then a probe is asked
   in every order of option changes, declared types and guesses. *)
EXTENDS Probe, Json
CONSTANTS Depth, Kind      \* Kind: "content" | "history"
VARIABLES segs, phase, st, hist
vars == <<segs, phase, st, hist>>
S(b, n) == [b |-> b, n |-> n]
Z(n) == S(<<17>>, n)
Sync == <<255, 251>>
(* bodies: every signature, in its variants, and near misses *)
Ogg(n, c) == <<S(cOGGS, 1), Z(24), S(c, 1), Z(n)>>
Bodies ==
    {<<S(cMAC \o <<32>>, 1), Z(40)>>, <<S(cFLAC, 1), Z(40)>>, <<S(cMPCK, 1), Z(40)>>, <<S(cMPP, 1), Z(40)>>,
     <<S(cFORM, 1), Z(4), S(cAIFF, 1), Z(30)>>, <<S(cFORM, 1), Z(4), S(cAIFC, 1), Z(30)>>, <<S(cRIFF, 1), Z(4), S(cWAVE, 1), Z(30)>>,
     Ogg(40, <<1>> \o cVORB), Ogg(40, cOPUS), Ogg(40, cSPEEX), Ogg(0, cOPUS), Ogg(1, <<1>> \o cVORB),
     <<S(cWVPK, 1), Z(40)>>, <<Z(4), S(cFTYP, 1), Z(30)>>,
     <<S(cFORM, 1), Z(4), S(cWAVE, 1), Z(30)>>, <<S(cRIFF, 1), Z(4), S(cAIFF, 1), Z(30)>>, Ogg(40, cVORB), Ogg(40, <<1>> \o cOPUS),
     <<Z(5), S(cFTYP, 1), Z(30)>>, <<S(<<77, 65, 68>>, 1), Z(40)>>, <<S(<<77, 80>>, 1), Z(40)>>, <<S(<<119, 118, 112>>, 1), Z(40)>>,
     <<S(<<102, 76, 97>>, 1), Z(40)>>, <<S(cID3, 1)>>, <<S(<<255>>, 1)>>, <<S(<<255>>, 3)>>, <<S(<<255, 223>>, 1), Z(5)>>, <<Z(1023)>>, <<>>}
    \cup {<<S(<<255, b>>, 1), Z(30)>> : b \in {224, 226, 228, 230, 240, 241, 242, 244, 246, 248, 249, 250, 251, 252, 254, 255}}
Id3(v, fl, n) == <<S(cID3 \o <<v, 0, fl, 0, 0, n \div 128, n % 128>>, 1), Z(n + (IF fl = 16 THEN 10 ELSE 0))>>
Fronts ==
    {<<>>} \cup {Id3(v, 0, n) : v \in {2, 3, 4}, n \in {0, 5, 300}} \cup {Id3(4, 16, n) : n \in {0, 130}} \cup {Id3(3, 16, 40)}
    \cup {<<Z(n)>> : n \in {1, 2, 9, 40, 1021, 1022, 1023, 1024, 1025, 1100}}
    \cup {Id3(4, 0, 20) \o <<Z(n)>> : n \in {3, 1022, 1024, 1025}} \cup {Id3(4, 0, 20) \o Id3(3, 0, 9)}
    \cup {<<S(cID3 \o <<4, 0, 0, 0, 0, 255, 7>>, 1), Z(100)>>, <<S(<<255>>, 1), Z(3)>>, <<Z(2), S(<<255>>, 2), Z(1)>>}
    \cup {<<S(<<65, 80, 69, 84, 65, 71, 69, 88>>, 1), Z(n)>> : n \in {24, 500, 1100}}
Cuts == {0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 35, 36}
Types == {"mpeg", "aac", "ape", "flac", "wav", "mp4", "vorbis"}
Opts == {[a |-> "set", ty |-> t] : t \in {"wav", "mpeg"}} \cup {[a |-> "junk", n |-> n] : n \in {0, 1, 3, 10, 1024, 5000}} \cup
        {[a |-> "use", b |-> x] : x \in BOOLEAN} \cup {[a |-> "rs", rs |-> r] : r \in
            {<<>>, <<[name |-> "R0", pat |-> Sync]>>, <<[name |-> "R1", pat |-> cID3]>>, <<[name |-> "R0", pat |-> <<77>>], [name |-> "R2", pat |-> cFLAC]>>}} \cup
        {[a |-> "guess"]}
HBodies == {<<S(Sync, 1), Z(30)>>, <<S(<<255, 241>>, 1), Z(40)>>, <<S(cFLAC, 1), Z(40)>>, <<Z(50)>>}
HPre == {<<>>, Id3(4, 0, 5), <<Z(9)>>, <<Z(1500)>>}

Init == segs = <<>> /\ phase = "pre" /\ st = ProbeInit(0) /\ hist = <<>>
Prefix == phase = "pre" /\ phase' = "body" /\ segs' \in (IF Kind = "content" THEN Fronts ELSE HPre) /\ UNCHANGED <<st, hist>>
Body == phase = "body" /\ \E b \in (IF Kind = "content" THEN Bodies ELSE HBodies) : segs' = segs \o b /\ phase' = (IF Kind = "content" THEN "cut" ELSE "ask") /\ UNCHANGED <<st, hist>>
Emit(sg, h) == PrintT("SCN " \o ToJson([segs |-> sg, steps |-> h]))
Cut == /\ phase = "cut" /\ phase' = "done"
       /\ \/ segs' = segs
          \/ /\ Len(Flat(segs)) < 60
             /\ \E c \in {x \in Cuts : x <= Len(Flat(segs))} : segs' = <<S(SubSeq(Flat(segs), 1, c), 1)>>
       /\ Emit(segs', <<>>) /\ UNCHANGED <<st, hist>>
Ask == /\ phase = "ask" /\ Len(hist) < Depth
       /\ \E op \in Opts : \E n \in ProbeStep(Flat(segs), st, op) :
            /\ st' = n /\ hist' = Append(hist, op)
       /\ UNCHANGED <<segs, phase>>
       /\ (Len(hist') = Depth /\ hist'[Depth].a = "guess" => Emit(segs, hist'))
Next == Prefix \/ Body \/ Cut \/ Ask
Spec == Init /\ [][Next]_vars
B == Flat(segs)
(* what was determined stays so when more bytes follow; the smaller limit never finds more *)
Prefixed == phase = "done" /\ Quick(B) # "" => Content(B \o <<0, 1, 2>>, 1024) = {Quick(B)}
Monotone == phase = "done" => (Content(B, 10) # {""} /\ "" \notin Content(B, 10) => Content(B, 1024) = Content(B, 10))
Decided == phase = "done" => Content(B, 1024) # {}
(* a type set by hand survives a guess that finds nothing; nothing moves the stream *)
Stays == phase = "ask" => st.pos = 0
Kept == [][phase = "ask" /\ st.ty # "" => st'.ty # ""]_vars
=============================================================================
