------------------------------- MODULE PicsMC -------------------------------
(* Images are assembled piece by piece from known dimensions; recognising them
   gives back the dimensions whatever else stands around them. *)
EXTENDS Pics, Json
CONSTANTS Depth
VARIABLES b, want, phase, n
vars == <<b, want, phase, n>>
L(k, v) == [i \in 1..k |-> v]
B4(x) == U32(x)
B2(x) == <<x \div 256, x % 256>>
Dims == {<<0, 0>>, <<0, 1>>, <<0, 300>>, <<1, 2>>, <<65535, 65535>>}
PngTypes == ({0} \X {1, 8, 16}) \cup ({2, 4, 6} \X {8, 16}) \cup ({3} \X {1, 8})
Png(w, h, t) == PNGSIG \o <<0, 0, 0, 13>> \o IHDR \o B4(w) \o B4(h) \o <<t[2], t[1], 0, 0, 0, 9, 9, 9, 9>>
PngChunk(name, k, v) == Be32(k) \o name \o L(k, v) \o <<1, 2, 3, 4>>
Jpegs == {<<255, 216>>}
JSeg(m, body) == <<255, m>> \o B2(Len(body) + 2) \o body
Init == b = <<>> /\ want = NoInfo /\ phase = "new" /\ n = 0
StartPng == /\ phase = "new" /\ phase' = "png" /\ n' = 0
            /\ \E w \in Dims, h \in Dims, t \in PngTypes : b' = Png(w, h, t) /\ want' = Info(w, h, t[2] * Samples(t[1]), 0)
PngType == b[26]
AddChunk == /\ phase = "png" /\ n < Depth
            /\ \/ \E k \in {0, 1, 300}, nm \in {<<116, 69, 88, 116>>, <<103, 65, 77, 65>>} : b' = b \o PngChunk(nm, k, 80) /\ n' = n + 1 /\ UNCHANGED <<want, phase>>
               \/ /\ PngType = 3 /\ want.colors = 0
                  /\ \E k \in {1, 7, 256} : b' = b \o PngChunk(PLTE, 3 * k, 76) /\ want' = [want EXCEPT !.colors = k] /\ n' = n + 1 /\ UNCHANGED phase
StartJpeg == phase = "new" /\ phase' = "jpeg" /\ b' = <<255, 216>> /\ n' = 0 /\ UNCHANGED want
AddSeg == /\ phase = "jpeg" /\ n < Depth
          /\ \E m \in {224, 225, 219, 196, 221, 254}, k \in {0, 1, 20} : b' = b \o JSeg(m, L(k, 192)) /\ n' = n + 1 /\ UNCHANGED <<want, phase>>
AddFill == phase = "jpeg" /\ n < Depth /\ \E k \in {1, 3} : b' = b \o L(k, 255) /\ n' = n + 1 /\ UNCHANGED <<want, phase>>
AddSof == /\ phase = "jpeg"
          /\ \E m \in {192, 194, 193}, p \in {8, 12}, h \in {0, 1, 65535}, w \in {1, 640}, c \in {1, 3, 4} :
               /\ b' = b \o JSeg(m, <<p>> \o B2(h) \o B2(w) \o <<c>> \o L(3 * c, 1))
               /\ want' = Info(<<0, w>>, <<0, h>>, p * c, 0)
          /\ phase' = "sof" /\ UNCHANGED n
Emit == PrintT("SCN " \o ToJson([bytes |-> b']))
Finish == /\ \/ phase = "png" /\ b' = b \o PngChunk(<<73, 68, 65, 84>>, 4, 80)
             \/ phase = "sof" /\ b' = b \o JSeg(218, L(6, 0)) \o <<1, 2, 255, 217>>
          /\ phase' = "done" /\ UNCHANGED <<want, n>> /\ Emit
Next == StartPng \/ AddChunk \/ StartJpeg \/ AddSeg \/ AddFill \/ AddSof \/ Finish
Spec == Init /\ [][Next]_vars
Recognised == phase = "done" => ImageInfo(b) = want
Kind == phase = "done" => Sniff(b) # ""
=============================================================================
