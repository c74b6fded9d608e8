----------------------------- MODULE PagerTrace -----------------------------
(* Every recorded call on ogg_pager must be a step of the packet list, and all
   pages it writes and reads must be the framing of those packets. *)
EXTENDS Pager, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
vars == <<l, st, bad>>
Lens(s) == [i \in DOMAIN s |-> s[i].n]
Take(s, k) == SubSeq(s, 1, Min2(k, Len(s)))
(* reading back `c` packets out of those available *)
BackBad(avail, b) ==
    CASE b.c = -1 -> IF ~b.ok \/ b.pk # avail THEN <<"read-all">> ELSE <<>>
      [] b.c = 0 -> IF ~b.ok \/ b.pk # <<>> THEN <<"read-none">> ELSE <<>>
      [] b.c > Len(avail) -> IF b.ok THEN <<"read-more-than-there-is">> ELSE <<>>
      [] OTHER -> IF ~b.ok \/ b.pk # Take(avail, b.c) THEN <<"read-count">> ELSE <<>>
New(s, ev) ==
    CASE ev.op.a = "init" -> ev.op.pk
      [] ev.op.a = "set" /\ ev.op.i < Len(s) -> [s EXCEPT ![ev.op.i + 1] = [n |-> ev.op.n, h |-> ev.op.h]]
      [] OTHER -> s
Reasons(s, ev) ==
    IF ev.panic # "" THEN <<"panic">> ELSE
    LET t == New(s, ev) IN
    (IF ev.post.all # t \/ ev.post.len # Len(t) \/ ev.post.empty # (t = <<>>) THEN <<"packets">> ELSE <<>>)
    \o (IF \E i \in DOMAIN ev.post.get : ev.post.get[i] # (IF i <= Len(t) THEN <<t[i]>> ELSE <<>>) THEN <<"get">> ELSE <<>>)
    \o (CASE ev.op.a = "set" -> IF ev.ret[1].ok # (ev.op.i < Len(s)) THEN <<"set-result">> ELSE <<>>
          [] ev.op.a \in {"paginate", "write"} ->
                LET r == ev.ret[1] IN
                PagesBad(255, 255, r.pages, Lens(t), ev.op.serial, ev.op.gran, ev.op.flags)
                \o (IF r.count # Len(r.pages) THEN <<"page-count">> ELSE <<>>)
                \o (IF ~r.alone THEN <<"page-codec">> ELSE <<>>)
                \o FlattenSeq([i \in DOMAIN r.back |-> BackBad(t, r.back[i])])
          [] ev.op.a = "layout" ->
                LET r == ev.ret[1]
                    avail == PacketLens(255, r.pages) IN
                FlattenSeq([i \in DOMAIN r.back |-> BackBad(avail, r.back[i])])
                \o (IF \E i \in DOMAIN r.back : r.back[i].ok /\ r.back[i].cat # r.cats[Len(r.back[i].pk) + 1] THEN <<"content">> ELSE <<>>)
          [] ev.op.a = "damage" ->
                (IF ev.ret[1].accepted # <<>> THEN <<"malformed-accepted">> ELSE <<>>) \o (IF ~ev.ret[1].whole THEN <<"page-codec">> ELSE <<>>)
          [] OTHER -> <<>>)
Init == l = 0 /\ st = <<>> /\ bad = <<>>
Next ==
    /\ l < Len(Tr)
    /\ l' = l + 1
    /\ LET ev == Tr[l + 1] IN
       IF ev.op.a = "PANIC" THEN st' = st /\ bad' = Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> <<"panic">>])
       ELSE LET r == Reasons(st, ev) IN
            /\ st' = IF ev.panic # "" THEN st ELSE New(st, ev)
            /\ bad' = IF r = <<>> THEN bad ELSE Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> r])
Spec == Init /\ [][Next]_vars
Done == l = Len(Tr) => JsonSerialize(IOEnv.VERDICT, [done |-> l, bad |-> bad])
=============================================================================
