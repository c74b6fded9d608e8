-------------------------------- MODULE Probe --------------------------------
(* Detection of the file type from content, and the history of a probe.
   Bytes are sequences of numbers. *)
EXTENDS Common
RECURSIVE Rep(_, _)
Rep(b, n) == IF n <= 0 THEN <<>> ELSE IF n = 1 THEN b ELSE LET h == Rep(b, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o b
Flat(segs) == FlattenSeq(Map(segs, LAMBDA x : Rep(x.b, x.n)))
Least(a, b) == IF a < b THEN a ELSE b
Starts(b, s) == Len(b) >= Len(s) /\ SubSeq(b, 1, Len(s)) = s
Has(b, at, s) == Len(b) >= at + Len(s) /\ SubSeq(b, at + 1, at + Len(s)) = s
Drop(b, n) == SubSeq(b, n + 1, Len(b))

(* ---- signatures (all at fixed places of the first 36 bytes) ---- *)
cMAC == <<77, 65, 67>>
cFLAC == <<102, 76, 97, 67>>
cMPCK == <<77, 80, 67, 75>>
cMPP == <<77, 80, 43>>
cFORM == <<70, 79, 82, 77>>
cAIFF == <<65, 73, 70, 70>>
cAIFC == <<65, 73, 70, 67>>
cRIFF == <<82, 73, 70, 70>>
cWAVE == <<87, 65, 86, 69>>
cOGGS == <<79, 103, 103, 83>>
cVORB == <<118, 111, 114, 98, 105, 115>>
cOPUS == <<79, 112, 117, 115, 72, 101, 97, 100>>
cSPEEX == <<83, 112, 101, 101, 120, 32, 32, 32>>
cWVPK == <<119, 118, 112, 107>>
cFTYP == <<102, 116, 121, 112>>
cID3 == <<73, 68, 51>>
(* an MPEG sync word has 11 set bits; an ADTS header has 12 and the layer bits clear *)
IsSync(a, b) == a = 255 /\ b >= 224
SyncType(b) == IF (b \div 16) % 2 = 1 /\ (b \div 2) % 4 = 0 THEN "aac" ELSE "mpeg"
Quick(b) ==
    CASE Starts(b, cMAC) -> "ape"
      [] Len(b) >= 2 /\ IsSync(b[1], b[2]) -> SyncType(b[2])
      [] Starts(b, cFORM) /\ (Has(b, 8, cAIFF) \/ Has(b, 8, cAIFC)) -> "aiff"
      [] Len(b) >= 36 /\ Starts(b, cOGGS) /\ Has(b, 29, cVORB) -> "vorbis"
      [] Len(b) >= 36 /\ Starts(b, cOGGS) /\ Has(b, 28, cOPUS) -> "opus"
      [] Len(b) >= 36 /\ Starts(b, cOGGS) /\ Has(b, 28, cSPEEX) -> "speex"
      [] Starts(b, cFLAC) -> "flac"
      [] Starts(b, cRIFF) /\ Has(b, 8, cWAVE) -> "wav"
      [] Starts(b, cWVPK) -> "wv"
      [] Has(b, 4, cFTYP) -> "mp4"
      [] Starts(b, cMPCK) \/ Starts(b, cMPP) -> "mpc"
      [] OTHER -> ""
(* the first sync word: its place (from 0), -1 when there is none in the first n bytes *)
SyncAt(b, n) ==
    LET S == {i \in 1..(Least(Len(b), n) - 1) : IsSync(b[i], b[i + 1])} IN
    IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
(* sync words behind junk; whether the two bytes of the word count as junk is left open *)
Junk(b, max) ==
    LET in == SyncAt(b, max)
        out == SyncAt(b, max + 2) IN
    IF in >= 0 THEN {SyncType(b[in + 2])}
    ELSE IF out >= 0 THEN {"", SyncType(b[out + 2])} ELSE {""}
Synchsafe(b) == \A i \in 7..10 : b[i] < 128
Id3Len(b) == 10 + b[7] * 2097152 + b[8] * 16384 + b[9] * 128 + b[10] + (IF b[4] = 4 /\ (b[6] \div 16) % 2 = 1 THEN 10 ELSE 0)
AnyType == {"", "mpeg", "aac", "ape", "flac", "mpc"}
Content(b, max) ==
    IF Len(b) = 0 THEN {""}
    ELSE IF Quick(b) # "" THEN {Quick(b)}
    ELSE IF Len(b) >= 10 /\ Starts(b, cID3)
    THEN IF ~Synchsafe(b) THEN AnyType
         ELSE LET d == Drop(b, Id3Len(b)) IN
              IF Quick(d) \in {"ape", "flac", "mpc"} THEN {Quick(d)} ELSE Junk(d, max)
    ELSE Junk(b, max)
(* resolvers registered by the user come first: rs is a sequence of [name, pat] *)
Matching(b, rs) == {"custom:" \o rs[i].name : i \in {j \in DOMAIN rs : Starts(b, rs[j].pat)}}
Guess(b, st) == LET m == Matching(b, st.rs) IN IF st.use /\ m # {} THEN m ELSE Content(b, st.junk)

(* ---- the probe: declared type, options, resolvers, place in the stream ---- *)
ProbeInit(start) == [ty |-> "", junk |-> 1024, use |-> TRUE, rs |-> <<>>, pos |-> start]
(* the allowed next states of a call *)
ProbeStep(b, st, op) ==
    CASE op.a = "set" -> {[st EXCEPT !.ty = op.ty]}
      [] op.a = "junk" -> {[st EXCEPT !.junk = op.n]}
      [] op.a = "use" -> {[st EXCEPT !.use = op.b]}
      [] op.a = "rs" -> {[st EXCEPT !.rs = op.rs]}
      [] op.a = "guess" -> {[st EXCEPT !.ty = IF g = "" THEN st.ty ELSE g] : g \in Guess(b, st)}
(* the types FileType::from_ext knows *)
Ext(x0) ==
    LET x == Lower(x0) IN
    CASE x = "aac" -> "aac" [] x = "ape" -> "ape" [] x \in {"aiff", "aif", "afc", "aifc"} -> "aiff" [] x \in {"mp3", "mp2", "mp1"} -> "mpeg"
      [] x \in {"wav", "wave"} -> "wav" [] x = "wv" -> "wv" [] x = "opus" -> "opus" [] x = "flac" -> "flac" [] x = "ogg" -> "vorbis"
      [] x \in {"mp4", "m4a", "m4b", "m4p", "m4r", "m4v", "3gp"} -> "mp4" [] x \in {"mpc", "mp+", "mpp"} -> "mpc" [] x = "spx" -> "speex"
      (* resolvers come first; these are the ones the harness registers *)
      [] x = "xr0" -> "custom:R0" [] x = "xr1" -> "custom:R1" [] x = "xr2" -> "custom:R2"
      [] OTHER -> ""

(* ---- judging a recorded run ----
   e: [bytes|segs, fmt, parts, start, steps: seq of [op, ty, pos, seen], buf, ext, open, opened, after, read] *)
LayoutContent(e, pre, st) ==
    (* a complete file of a format behind a prefix *)
    LET front == Len(e.parts) > 0 /\ Len(e.parts[1]) >= 5 /\ SubSeq(e.parts[1], 1, 5) = "audio"
        plain == front \/ e.fmt \notin {"mpeg", "aac", "ape", "flac", "mpc"} \/ (e.fmt = "flac" /\ SubSeq(e.parts[1], 1, 2) # "v2")
        isId3 == Len(pre) >= 10 /\ Starts(pre, cID3) /\ Synchsafe(pre) /\ Id3Len(pre) = Len(pre) IN
    IF pre = <<>> THEN (IF front \/ e.fmt \notin {"mpeg", "aac"} \/ st.junk >= 1024 THEN {e.fmt} ELSE {"", "aac", "mpeg"})
    ELSE IF isId3 /\ plain /\ e.fmt \in {"ape", "flac", "mpc"} THEN {e.fmt}
    ELSE IF isId3 /\ plain /\ e.fmt \in {"mpeg", "aac"} THEN (IF st.junk >= 2 THEN {e.fmt} ELSE {"", e.fmt})
    ELSE IF Quick(pre) # "" THEN {Quick(pre)}
    ELSE IF ~Starts(pre, cID3) /\ SyncAt(pre, Len(pre)) < 0 /\ pre[Len(pre)] # 255 /\ front /\ e.fmt \in {"mpeg", "aac"}
    THEN (IF Len(pre) + 2 <= st.junk THEN {e.fmt} ELSE IF Len(pre) > st.junk THEN {""} ELSE {"", e.fmt})
    ELSE {"*"}
RunGuess(e, b, st) ==
    IF e.fmt = "" THEN Guess(b, st)
    ELSE LET m == Matching(e.head, st.rs) IN IF st.use /\ m # {} THEN m ELSE LayoutContent(e, b, st)
RECURSIVE RunBad(_, _, _, _)
RunBad(e, b, st, i) ==
    IF i > Len(e.steps) THEN <<>>
    ELSE LET x == e.steps[i]
             gs == IF x.op.a = "guess" THEN RunGuess(e, b, st) ELSE {}
             tys == IF x.op.a # "guess" THEN {y.ty : y \in ProbeStep(b, st, x.op)}
                    ELSE {IF g = "" THEN st.ty ELSE g : g \in gs}
             nx == IF x.op.a = "guess" THEN [st EXCEPT !.ty = x.ty] ELSE CHOOSE y \in ProbeStep(b, st, x.op) : TRUE
             bad == (IF x.res # "ok" THEN <<"guess:" \o x.res>> ELSE <<>>)
                    \o (IF x.res = "ok" /\ "*" \notin gs /\ x.ty \notin tys THEN <<x.op.a \o ":type">> ELSE <<>>)
                    \o (IF x.res = "ok" /\ x.pos # e.start THEN <<x.op.a \o ":position">> ELSE <<>>)
                    \o (IF \E j \in DOMAIN x.seen : ~Starts(e.head, x.seen[j]) \/ Len(x.seen[j]) < Least(36, Len(e.head)) THEN <<"resolver:buffer">> ELSE <<>>)
                    (* asked again with nothing changed in between: the same answer *)
                    \o (IF i > 1 /\ x.op.a = "guess" /\ e.steps[i - 1].op.a = "guess" /\ x.ty # e.steps[i - 1].ty THEN <<"unstable">> ELSE <<>>)
         IN IF bad # <<>> THEN bad ELSE RunBad(e, b, nx, i + 1)
ProbeBad(e) ==
    LET b == Flat(e.segs)
        st0 == ProbeInit(e.start)
        (* by path: the declared type is that of the extension, content wins *)
        g == RunGuess(e, b, st0)
        want == {IF x = "" THEN Ext(e.ext) ELSE x : x \in g}
    IN RunBad(e, b, st0, 1)
       \o (IF e.fmt = "" /\ e.buf # Quick(b) THEN <<"from_buffer">> ELSE IF e.fmt # "" /\ b = <<>> /\ e.buf # "" /\ e.buf # e.fmt THEN <<"from_buffer">> ELSE <<>>)
       \o (IF e.ext # "" /\ e.opened # Ext(e.ext) THEN <<"extension">> ELSE <<>>)
       \o (IF e.ext # "" /\ "*" \notin g /\ e.after \notin want THEN <<"path">> ELSE <<>>)
       \o (IF e.read # "" /\ e.read # "err" /\ e.read # e.final THEN <<"read-type">> ELSE <<>>)
       (* a complete file is readable as what it was detected to be (multiplexed Ogg streams are not supported) *)
       \o (IF e.fmt # "" /\ "mux" \notin ToSet(e.parts) /\ e.start = 0 /\ b = <<>> /\ e.final = e.fmt /\ e.read # e.fmt THEN <<"read">> ELSE <<>>)
=============================================================================
