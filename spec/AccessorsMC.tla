---------------------------- MODULE AccessorsMC ----------------------------
(* All histories of set / remove up to a depth, on the accessor design:
   the stored form of every type (pairs share one entry), with the get/set/
   remove laws as invariants.  Each history becomes a conformance scenario. *)
EXTENDS Accessors
CONSTANTS Type, Generic, Depth
VARIABLES store, ops, last
vars == <<store, ops, last>>

\* the design's storage: one entry per slot; pairs share a slot
Slot(f) == IF IsPair(Type, Generic) /\ f \in {"track", "track_total"} THEN "trackpair"
           ELSE IF IsPair(Type, Generic) /\ f \in {"disk", "disk_total"} THEN "diskpair" ELSE f
Slots == {Slot(f) : f \in Fields}
Part(f) == IF f \in {"track_total", "disk_total"} THEN 2 ELSE 1
Get(s, f) == IF Slot(f) = f THEN s[f][1] ELSE s[Slot(f)][Part(f)]
Values(f) == IF f \in NumF THEN {"3", "255"} ELSE IF f = "date" THEN (IF Type = "Id3v1" THEN {"2020", "1999"} ELSE {"2020", "1999-12-31"})
             ELSE IF f = "genre" THEN {"Rock", "Jazz"} ELSE {"x", "other"}
Set(s, f, v) == [s EXCEPT ![Slot(f)] = [@ EXCEPT ![IF Slot(f) = f THEN 1 ELSE Part(f)] = <<v>>]]
Unset(s, f) == IF Slot(f) = f THEN [s EXCEPT ![f] = <<<<>>, <<>>>>]
               ELSE IF Part(f) = 1 THEN [s EXCEPT ![Slot(f)] = <<<<>>, <<>>>>]
               ELSE [s EXCEPT ![Slot(f)] = [@ EXCEPT ![2] = <<>>]]
Init == store = [x \in Slots |-> <<<<>>, <<>>>>] /\ ops = <<>> /\ last = [pre |-> store, op |-> [a |-> "init"]]
Step(op, s2) ==
    /\ Len(ops) < Depth
    /\ ops' = Append(ops, op) /\ store' = IF Supp(Type, Generic, op.f) THEN s2 ELSE store
    /\ last' = [pre |-> store, op |-> op]
    /\ PrintT("SCN " \o ToJson([type |-> Type, generic |-> Generic, ops |-> ops']))
Next == \E f \in Fields :
          \/ \E v \in Values(f) : Step([a |-> "set", f |-> f, v |-> v], Set(store, f, v))
          \/ Step([a |-> "unset", f |-> f], Unset(store, f))
Spec == Init /\ [][Next]_vars

AsState(s) == [type |-> Type, generic |-> Generic, items |-> <<>>, acc |-> [f \in Fields |-> Get(s, f)]]
Inv ==
    /\ last.op.a = "set" => SetOk(AsState(last.pre), last.op.f, last.op.v, AsState(store))
    /\ last.op.a = "unset" => UnsetOk(AsState(last.pre), last.op.f, AsState(store))
=============================================================================
