---------------------------- MODULE CTagOpsTrace ----------------------------
(* Every recorded call on a real format specific tag must be the CTagOps step,
   return what CTagOps returns, and every lookup must agree with the contents. *)
EXTENDS CTagOps
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
vars == <<l, st, bad>>
NoInfo(op) == op.a = "insert_pic" /\ "item" \in DOMAIN op /\ Len(op.item.f) = 4
\* inserting an Ogg picture without its information may be refused (then nothing changes),
\* otherwise the information is whatever was recognised
PicGuess(ty, s, ev) ==
    IF ev.ret = RefusedItem THEN R(s, RefusedItem)
    ELSE LET ps == VcPics(ev.post.items) IN
         IF ps = <<>> THEN R(s, RefusedItem)
         ELSE Apply(ty, s, [ev.op EXCEPT !.item = [@ EXCEPT !.f = @ \o SubSeq(ps[Len(ps)].f, 5, 8)]])
Expect(ty, s, ev) ==
    IF ev.op.a = "init" THEN R(ev.post.items, NoRet)
    ELSE IF ty = "VorbisComments" /\ NoInfo(ev.op) THEN PicGuess(ty, s, ev)
    ELSE Apply(ty, s, ev.op)
Reasons(s, ev) ==
    LET ty == ev.post.type
        exp == Expect(ty, s, ev) IN
    IF ev.panic # "" THEN <<"panic">>
    ELSE (IF ev.ret # exp.ret THEN <<"returned-value">> ELSE <<>>)
      \o (IF ev.post.items # exp.items THEN <<"contents">> ELSE <<>>)
      \o (IF ~ObsOk(ty, ev.post.items, ev.obs) THEN <<"lookups">> ELSE <<>>)
Init == l = 0 /\ st = <<>> /\ bad = <<>>
Next ==
    /\ l < Len(Tr)
    /\ l' = l + 1
    /\ LET ev == Tr[l + 1] IN
       IF ev.op.a = "PANIC"
       THEN st' = st /\ bad' = Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> <<"panic">>])
       ELSE LET r == Reasons(st, ev) IN
            /\ st' = ev.post.items
            /\ bad' = IF r = <<>> THEN bad ELSE Append(bad, [n |-> l + 1, sc |-> ev.sc, i |-> ev.i, why |-> r])
Spec == Init /\ [][Next]_vars
Done == l = Len(Tr) => JsonSerialize(IOEnv.VERDICT, [done |-> l, bad |-> bad])
=============================================================================
