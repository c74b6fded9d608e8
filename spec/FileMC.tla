------------------------------- MODULE FileMC -------------------------------
(* Exhaustive exploration of edit histories over the layouts of one format.
   Every history is checked against FileSpec and printed as a scenario. *)
EXTENDS FileModel, Json
CONSTANTS Fmt, Full, Depth, OpSet
VARIABLES f, lay, hist, last
vars == <<f, lay, hist, last>>

Sv(ty, c, via) == [a |-> "save", type |-> ty, c |-> c, via |-> via, o |-> "none"]
Rm(ty, via) == [a |-> "remove", type |-> ty, c |-> "", via |-> via, o |-> "none"]
Ops ==
    LET W == Writable(Fmt) RD == Readable(Fmt) NO == TagTypes \ RD IN
    CASE OpSet = "edit" -> {Sv(ty, c, "conc") : ty \in W, c \in {"A", "B"}} \cup {Rm(ty, "type") : ty \in RD}
      [] OpSet = "save" -> {Sv(ty, c, v) : ty \in W, c \in {"A", "B", "C"}, v \in {"conc"}}
      [] OpSet = "saveA" -> {Sv(ty, c, "conc") : ty \in W, c \in {"A"}}
      [] OpSet = "remove" -> {Rm(ty, v) : ty \in RD, v \in {"type", "path", "ext", "empty", "emptygen"}} \cup {Rm(ty, "type") : ty \in NO}
      [] OpSet = "removes" -> {Rm(ty, "type") : ty \in RD} \cup {Sv(ty, "A", "conc") : ty \in W}
      [] OpSet = "stable" -> {Sv(ty, c, v) : ty \in W, c \in {"A", "B"}, v \in {"conc", "gen"}} \cup {[a |-> "resave", type |-> ty, c |-> "", via |-> "", o |-> "none"] : ty \in W}
      [] OpSet = "refuse" -> {Sv(ty, "A", v) : ty \in TagTypes \ W, v \in {"conc", "gen", "path", "tagged"}} \cup {Rm(ty, v) : ty \in NO, v \in {"type", "ext"}}
      [] OTHER -> {}

Init == \E L \in Layouts(Fmt, Full) : lay = L /\ f = File0(Fmt, L) /\ hist = <<>> /\ last = <<>>
Bytes(g) == [i \in DOMAIN g.L |-> [c |-> g.L[i].c, len |-> g.L[i].len, k |-> g.L[i].k]]
Next ==
    /\ Len(hist) < Depth
    /\ \E op \in Ops :
        LET d == Do(f, op) IN
        /\ f' = d.f /\ lay' = lay /\ hist' = Append(hist, op)
        /\ last' = [op |-> [a |-> op.a, type |-> op.type, via |-> op.via, o |-> <<>>, rep |-> hist # <<>> /\ hist[Len(hist)] = op],
                    fmt |-> Fmt, res |-> d.res, prevres |-> IF last = <<>> THEN "" ELSE last.res,
                    same |-> Bytes(f) = Bytes(d.f) /\ f.refs = d.f.refs,
                    tag |-> [type |-> op.type, hd |-> <<>>, items |-> IF op.a = "save" THEN <<Item(op.c)>> ELSE <<>>],
                    P |-> Obs(f), F |-> Obs(d.f)]
        /\ (Len(hist') = Depth => PrintT("SCN " \o ToJson([fmt |-> Fmt, parts |-> [i \in DOMAIN lay |-> lay[i].tok], ops |-> hist'])))
Spec == Init /\ [][Next]_vars

(* ---- the properties, on the design ---- *)
Inv == last # <<>> => \A k \in 1..6 : Bad("C0" \o ToString(k), last.P, last) = <<>>
Sane == f.size = SumLen(f.L) /\ \A k \in DOMAIN f.refs : At(f.L, f.refs[k]) \notin {"outside", "inside"}
=============================================================================
