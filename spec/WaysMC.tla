------------------------------- MODULE WaysMC -------------------------------
(* Entry points as pipelines over the design model of a file: a handle is
   opened, the generic tag is converted, encoded, and spliced in place. *)
EXTENDS FileModel, Ways, Json
CONSTANTS Fmt, Full
VARIABLES lay, ty, c, ways
vars == <<lay, ty, c, ways>>
Routes == << [group |-> "concrete", way |-> "cursor", via |-> "conc"], [group |-> "concrete", way |-> "path", via |-> "path"],
             [group |-> "concrete", way |-> "own", via |-> "own"], [group |-> "generic", way |-> "cursor", via |-> "gen"],
             [group |-> "generic", way |-> "tagged", via |-> "tagged"], [group |-> "generic", way |-> "taggedpath", via |-> "taggedpath"],
             [group |-> "generic", way |-> "conv", via |-> "conv"] >>
Desc(f) == [i \in DOMAIN f.L |-> [tok |-> f.L[i].tok, k |-> f.L[i].k, ty |-> f.L[i].ty, len |-> f.L[i].len, c |-> f.L[i].c]]
Init == \E L \in Layouts(Fmt, Full) : lay = L /\ ty \in TagTypes /\ c \in {"A", "B", "C"} /\ ways = <<>>
Next ==
    /\ Len(ways) < Len(Routes)
    /\ LET r == Routes[Len(ways) + 1]
           d == Do(File0(Fmt, lay), [a |-> "save", type |-> ty, c |-> c, via |-> r.via]) IN
       /\ ways' = Append(ways, [group |-> r.group, way |-> r.way, res |-> d.res, hash |-> Desc(d.f), len |-> SumLen(d.f.L), seen |-> TagOf(Obs(d.f), ty)])
       /\ (Len(ways') = Len(Routes) => PrintT("SCN " \o ToJson([fmt |-> Fmt, parts |-> [i \in DOMAIN lay |-> lay[i].tok], type |-> ty, c |-> c])))
    /\ UNCHANGED <<lay, ty, c>>
Spec == Init /\ [][Next]_vars
Ev == [fmt |-> Fmt, type |-> ty, before |-> Desc(File0(Fmt, lay)), ways |-> ways, dump |-> [res |-> "ok", in |-> TRUE, pics |-> FALSE],
       gdump |-> [res |-> "ok", len |-> 0, hash |-> ""], cdump |-> [res |-> "ok", len |-> 0, hash |-> ""]]
Inv == Len(ways) = Len(Routes) => WaysBad(Ev) = <<>>
=============================================================================
