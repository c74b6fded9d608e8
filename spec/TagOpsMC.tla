------------------------------ MODULE TagOpsMC ------------------------------
(* Exhaustive exploration of TagOps over small constants.  Every explored
   transition is printed as one conformance scenario (state, operation). *)
EXTENDS TagOps
CONSTANTS MaxItems, MaxPics, Rich
VARIABLES st, last
vars == <<st, last>>

I(k, t, v, d) == [k |-> k, t |-> t, v |-> v, l |-> "XXX", d |-> d]
Items == {I("TrackTitle", "T", "a", ""), I("TrackTitle", "T", "", "x"),
          I("Comment", "T", "a", ""), I("Comment", "B", "b", "")}
         \cup (IF Rich THEN {I("Genre", "L", "7", ""), I("TrackTitle", "B", "a", "")} ELSE {I("Genre", "L", "7", "")})
Pic(pt, d) == [pt |-> pt, m |-> "-", d |-> d, data |-> "p"]
Pics == {Pic(3, "-"), Pic(4, "-"), Pic(3, "x")}
Keys == {"TrackTitle", "Comment", "Genre"}

OpsItems ==
    {[a |-> x, item |-> it] : x \in {"insert", "push", "insert_unchecked", "push_unchecked"}, it \in Items}
    \cup {[a |-> x, k |-> k] : x \in {"take", "take_first", "take_strings", "remove_key"}, k \in Keys}
    \cup {[a |-> "take_filter", k |-> k, p |-> p, x |-> "a"] : k \in {"TrackTitle", "Comment"}, p \in {"empty", "val", "none", "nodesc"}}
    \cup {[a |-> "retain", p |-> p, x |-> "TrackTitle"] : p \in {"text", "key", "all", "none"}}
    \cup {[a |-> "remove_empty"], [a |-> "clear"]}
    \cup {[a |-> "re_map", type |-> t] : t \in {"AiffText", "Id3v1", "VorbisComments", "Id3v2"}}
    \cup {[a |-> "insert_text", k |-> k, v |-> "n"] : k \in Keys}
    \cup {[a |-> "set", f |-> f, v |-> "3"] : f \in {"title", "comment", "genre", "track"}}
    \cup {[a |-> "unset", f |-> f] : f \in {"title", "comment", "genre", "track"}}
OpsPics ==
    {[a |-> "push_picture", pic |-> p] : p \in Pics}
    \cup {[a |-> "set_picture", idx |-> i, pic |-> p] : i \in 0..3, p \in {Pic(4, "-")}}
    \cup {[a |-> "remove_picture", idx |-> i] : i \in 0..2}
    \cup {[a |-> "remove_picture_type", pt |-> p] : p \in {3, 4}}

ResetOps == {"re_map", "clear"}
Init == st \in {[type |-> t, items |-> <<>>, pics |-> <<>>] : t \in {"AiffText"}} /\ last = [op |-> [a |-> "init"], pre |-> st, ret |-> <<>>]

Step(op) ==
    /\ st.type = "AiffText"       \* other types are explored as targets of re_map only
    /\ Allowed(st, op)
    /\ LET r == Apply(st, op) IN
       /\ Len(r.st.items) <= MaxItems /\ Len(r.st.pics) <= MaxPics
       /\ PrintT("SCN " \o ToJson([init |-> st, ops |-> <<op>>]))
       /\ st' = r.st /\ last' = [op |-> op, pre |-> st, ret |-> r.ret]
Next == \E op \in (IF MaxItems > 0 THEN OpsItems ELSE {}) \cup (IF MaxPics > 0 THEN OpsPics ELSE {}) : Step(op)
Spec == Init /\ [][Next]_vars
View == st

(* ---- the property, on the design ---- *)
OthersKeepOrder(k) == NotKey(st.items, k) = NotKey(last.pre.items, k)
Inv ==
    /\ last.op.a \in {"insert", "insert_unchecked"} /\ last.ret # <<"false">> =>
         /\ OfKey(st.items, last.op.item.k) = <<last.op.item>>
         /\ OthersKeepOrder(last.op.item.k)
    /\ last.op.a \in {"push", "push_unchecked"} /\ last.ret # <<"false">> =>
         st.items = Append(last.pre.items, last.op.item)
    /\ last.op.a \in {"take", "remove_key", "take_strings", "take_first"} =>
         OfKey(st.items, last.op.k) = <<>> /\ OthersKeepOrder(last.op.k)
    /\ last.op.a = "take" => last.ret = OfKey(last.pre.items, last.op.k)
    /\ last.op.a = "take_filter" => Len(last.ret) + Len(st.items) = Len(last.pre.items)
    /\ last.op.a \in {"push_picture", "set_picture", "remove_picture", "remove_picture_type"} => st.items = last.pre.items
    /\ last.op.a \notin {"clear", "push_picture", "set_picture", "remove_picture", "remove_picture_type"} => st.pics = last.pre.pics
    /\ last.op.a = "re_map" => \A i \in DOMAIN st.items : Maps(st.type, st.items[i].k)
=============================================================================
