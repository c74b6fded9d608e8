------------------------------ MODULE RobustMC ------------------------------
(* The reader machine. The file is whatever it likes: at every element it picks
   the kind and any size up to Top. The machine reads headers of one byte, buffers
   leaves, descends into containers and reads tables of Width byte entries. *)
EXTENDS Robust, Json
CONSTANTS Length, Top, Limit, Depth, Width
VARIABLES pos, ends, mode, out, alloc, steps, work, hist
vars == <<pos, ends, mode, out, alloc, steps, work, hist>>
Modes == {"strict", "best", "relaxed"}
Kinds == {"leaf", "container", "table"}
Init == /\ pos = 0 /\ \E n \in 0..Length : ends = <<n>>
        /\ mode \in Modes /\ out = "running" /\ alloc = 0 /\ steps = 0 /\ work = 0 /\ hist = <<>>
Here == ends[Len(ends)]
Room == Here - pos
Remember(k, d) == hist' = IF Len(hist) < 2 THEN Append(hist, [k |-> k, r |-> Relation(d, Room - 1, Top)]) ELSE hist
Stop(o) == out' = o /\ UNCHANGED <<pos, ends, alloc>>
\* where reading goes on behind an element whose size was not believed
Behind(d) == Min2(pos + 1 + d, Here)
Leaf(d) ==
    LET room == Room - 1 IN
    IF d > Limit \/ d > room
    THEN IF mode = "strict" THEN Stop("error")
         ELSE pos' = Behind(d) /\ work' = work + 1 /\ UNCHANGED <<ends, alloc, out>>
    ELSE pos' = pos + 1 + d /\ work' = work + 1 + d /\ alloc' = Max2(alloc, d) /\ UNCHANGED <<ends, out>>
Container(d) ==
    LET room == Room - 1 IN
    IF Len(ends) > Depth \/ (d > room /\ mode = "strict") THEN Stop("error")
    ELSE pos' = pos + 1 /\ ends' = Append(ends, Behind(d)) /\ work' = work + 1 /\ UNCHANGED <<alloc, out>>
\* a count of entries: as many bytes as that are needed, and no more than are left
Table(n) ==
    LET room == Room - 1 IN
    IF n > Limit \div Width \/ n > room \div Width THEN Stop("error")
    ELSE pos' = pos + 1 + (n * Width) /\ alloc' = Max2(alloc, n * Width) /\ work' = work + 1 + (n * Width) /\ UNCHANGED <<ends, out>>
Element == /\ out = "running" /\ Room > 0
           /\ \E k \in Kinds, d \in 0..Top :
                /\ CASE k = "leaf" -> Leaf(d) [] k = "container" -> Container(d) [] k = "table" -> Table(d)
                /\ Remember(k, d)
                /\ steps' = steps + 1
                /\ (out' = "error" => UNCHANGED work)
           /\ UNCHANGED mode
Emit(o) == Len(hist) = 2 =>
    PrintT("SCN " \o ToJson([k |-> "pair", r1 |-> hist[1].r, r2 |-> hist[2].r, mode |-> mode, out |-> o]))
Leave == /\ out = "running" /\ Room = 0 /\ steps' = steps + 1
         /\ IF Len(ends) > 1 THEN ends' = SubSeq(ends, 1, Len(ends) - 1) /\ UNCHANGED out
            ELSE out' = "value" /\ UNCHANGED ends
         /\ UNCHANGED <<pos, mode, alloc, work, hist>>
Next == Element \/ Leave \/ (out # "running" /\ Emit(out) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Element \/ Leave)
InBounds == pos <= ends[1] /\ \A i \in 1..Len(ends) : ends[i] <= ends[1] /\ pos <= ends[i]
Allocation == alloc <= Limit
Work == work <= ends[1]
Stack == Len(ends) <= Depth + 1
\* every element takes a byte, and is left once at most
Ends == <>(out # "running")
Terminates == steps <= 2 * ends[1] + 1
=============================================================================
