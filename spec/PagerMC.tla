------------------------------ MODULE PagerMC ------------------------------
(* The paginator as a state machine (one page per packet piece, as the library
   writes them), over small segment and page sizes, for every list of packet
   lengths: the pages it emits satisfy PagesBad = <<>>. *)
EXTENDS Pager, Json
CONSTANTS Seg, PageSegs, MaxLen, MaxPk
VARIABLES todo, rest, started, pages, lens, flags
vars == <<todo, rest, started, pages, lens, flags>>
Lists == UNION {[1..k -> 0..MaxLen] : k \in 1..MaxPk}
Init == /\ lens \in Lists /\ flags \in {0, 2, 4, 6} /\ todo = lens
        /\ rest = -1 /\ started = FALSE /\ pages = <<>>
Emit(segs, size, ends, cont, last) ==
    pages' = Append(pages, [v |-> 0, segs |-> segs, size |-> size, crc |-> TRUE, seq |-> Len(pages), serial |-> "s",
        gran |-> IF ends THEN "g" ELSE NoGranule,
        flag |-> (IF cont THEN 1 ELSE 0) + (IF pages = <<>> /\ Bit(flags, 2) THEN 2 ELSE 0) + (IF last /\ Bit(flags, 4) THEN 4 ELSE 0)])
(* start the next packet *)
Start == /\ rest = -1 /\ todo # <<>>
         /\ rest' = todo[1] /\ todo' = Tail(todo) /\ started' = FALSE /\ UNCHANGED <<pages, lens, flags>>
Full == Seg * PageSegs
(* a page full of 255s: the packet is not finished by it *)
Piece == /\ rest >= Full
         /\ Emit([i \in 1..PageSegs |-> Seg], Full, FALSE, started, FALSE)
         /\ rest' = rest - Full /\ started' = TRUE /\ UNCHANGED <<todo, lens, flags>>
Finish == /\ rest >= 0 /\ rest < Full
          /\ Emit(Lacing(Seg, rest), rest, TRUE, started, todo = <<>>)
          /\ rest' = -1 /\ started' = FALSE /\ UNCHANGED <<todo, lens, flags>>
          /\ (todo = <<>> => PrintT("SCN " \o ToJson([lens |-> lens, flags |-> flags])))
Next == Start \/ Piece \/ Finish
Spec == Init /\ [][Next]_vars
Inv == (todo = <<>> /\ rest = -1) => PagesBad(Seg, 255, pages, lens, "s", "g", flags) = <<>>
Progress == (todo = <<>> /\ rest = -1) => PacketLens(Seg, pages) = lens
=============================================================================
