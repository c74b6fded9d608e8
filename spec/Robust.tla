------------------------------- MODULE Robust -------------------------------
(* Readers of arbitrary bytes: what every one of them owes its caller.

   A size field read from a file is a wish, not a fact. A reader may believe it
   only as far as the bytes that are there and the allocation limit go; it must
   make progress with every element it reads, and must not go deeper with the
   file than it has stack for. The reader machine of RobustMC, in which the file
   chooses every size freely, keeps these promises for all inputs; RobustTrace
   holds the real readers to the same ones. *)
EXTENDS Common
Big == 2147483647
Times(n, k, c) == IF n > (Big - c) \div k THEN Big ELSE n * k + c

\* how a size in the file relates to what is really there
Relation(d, room, top) ==
    IF d = 0 THEN "zero" ELSE IF d >= top - 1 THEN "max" ELSE IF d > room THEN "over" ELSE IF d = room THEN "exact" ELSE "fit"
\* the damages which establish a relation, by the names the replay harness knows
Classes(rel) ==
    CASE rel = "zero" -> {"zero", "one"}
      [] rel = "fit" -> {"half", "minus", "seven", "eight", "leftm"}
      [] rel = "exact" -> {"left"}
      [] rel = "over" -> {"leftp", "plus", "double", "mega"}
      [] rel = "max" -> {"signed", "signedp", "top", "topm"}
Relations == {"zero", "fit", "exact", "over", "max"}

(* What a caller gets to see. The factors are generous: decoding expands what it
   reads (one item per byte, at worst), and small fixed buffers are nobody's
   business; but none of it may depend on what a size field says. *)
AllocBound(limit, len) == Max2(limit, Times(len, 128, 0)) + 65536
CallBound(len) == Times(len, 8, 20000)
ByteBound(len) == Times(len, 32, 200000)
RobustBad(ev) ==
    (IF ev.bad # <<>> THEN <<"panic">> ELSE <<>>)
    \o (IF ev.alloc.v > AllocBound(ev.limit, ev.len) THEN <<"over-allocation">> ELSE <<>>)
    \o (IF ev.calls.v > CallBound(ev.len) THEN <<"too-many-calls">> ELSE <<>>)
    \o (IF ev.bytes.v > ByteBound(ev.len) THEN <<"reads-too-much">> ELSE <<>>)
    \o (IF ev.bad = <<>> /\ ev.ok + ev.errs # ev.n THEN <<"no-outcome">> ELSE <<>>)
=============================================================================
