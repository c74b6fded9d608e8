------------------------------ MODULE StreamsMC ------------------------------
(* A client and a device. The client runs a program of stream operations; each
   is a loop over device calls. The device delivers in pieces, interrupts every
   few calls, or fails at a given call (once or from then on). A correct client
   retries interruptions, continues after short transfers, stops at failures and
   runs its checks before it modifies anything. *)
EXTENDS Streams, Integers, FiniteSets, TLC, Json
CONSTANTS Depth, Kind       \* Kind: "sched" | "fault"
VARIABLES dev, prog, pc, left, s, res
vars == <<dev, prog, pc, left, s, res>>

Steps == {[a |-> "r", n |-> 1], [a |-> "r", n |-> 3], [a |-> "all", n |-> 0], [a |-> "w", n |-> 2], [a |-> "w", n |-> 3],
          [a |-> "seek", n |-> 0], [a |-> "len", n |-> 0], [a |-> "trunc", n |-> 2]}
Progs == UNION {[1..k -> Steps] : k \in 1..Depth}
Sizes == UNION {[1..k -> {1, 2, 3, 7}] : k \in 0..2}
Plain == [rs |-> <<>>, ws |-> <<>>, int |-> 0, kinds |-> {}, at |-> 0, once |-> FALSE]
Devs == IF Kind = "sched"
        THEN {[Plain EXCEPT !.rs = r, !.ws = w, !.int = i] : r \in Sizes, w \in {<<>>, <<1>>, <<2, 1>>}, i \in {0, 2, 3, 5}}
        ELSE {[Plain EXCEPT !.kinds = k, !.at = a, !.once = o] : k \in SUBSET {"r", "w", "s", "t", "l"} \ {{}}, a \in 1..4, o \in BOOLEAN}
S0 == [data |-> <<1, 2, 3, 4>>, pos |-> 0, got |-> <<>>, calls |-> 0, ints |-> 0, counted |-> 0, hit |-> FALSE, clean |-> TRUE, dirty |-> FALSE]
Least(a, b) == IF a < b THEN a ELSE b
(* one device call of a kind: "int", "fail" or "ok" with the updated counters *)
Fails(d, st, k) == k \in d.kinds /\ d.at > 0 /\ (st.counted + 1 = d.at \/ (st.counted + 1 > d.at /\ ~d.once))
Count(d, st, k) == IF k \in d.kinds THEN [st EXCEPT !.counted = @ + 1] ELSE st
Call(d, st, k) ==
    LET i == IF k \in {"r", "w"} THEN [st EXCEPT !.ints = @ + 1] ELSE st IN
    IF k \in {"r", "w"} /\ d.int > 0 /\ i.ints % d.int = 0 THEN [o |-> "int", st |-> i]
    ELSE LET c == Count(d, i, k) IN
         IF Fails(d, i, k) THEN [o |-> "fail", st |-> IF c.hit THEN c ELSE [c EXCEPT !.hit = TRUE, !.clean = ~c.dirty]]
         ELSE [o |-> "ok", st |-> c]
Size(sz, st, n) == IF sz = <<>> THEN n ELSE Least(n, sz[(st.calls % Len(sz)) + 1])
Tick(sz, st) == IF sz = <<>> THEN st ELSE [st EXCEPT !.calls = @ + 1]
Put(data, pos, n) == [i \in 1..(IF pos + n > Len(data) THEN pos + n ELSE Len(data)) |->
                        IF i > pos /\ i <= pos + n THEN 9 ELSE IF i <= Len(data) THEN data[i] ELSE 0]
(* one iteration of the client: <<left, state, outcome>>, outcome "go" | "next" | "err" *)
Iter(d, step, lf, st) ==
    CASE step.a \in {"r", "all"} ->
           LET c == Call(d, st, "r") IN
           IF c.o = "int" THEN <<lf, c.st, "go">> ELSE IF c.o = "fail" THEN <<lf, c.st, "err">>
           ELSE LET want == IF step.a = "all" THEN 8 ELSE lf
                    k == Least(Size(d.rs, c.st, want), Len(c.st.data) - Least(c.st.pos, Len(c.st.data)))
                    t == [Tick(d.rs, c.st) EXCEPT !.got = @ \o SubSeq(c.st.data, c.st.pos + 1, c.st.pos + k), !.pos = @ + k] IN
                IF k = 0 THEN <<0, t, IF step.a = "all" THEN "next" ELSE "err">>
                ELSE IF step.a = "all" THEN <<lf, t, "go">> ELSE <<lf - k, t, IF lf = k THEN "next" ELSE "go">>
      [] step.a = "w" ->
           LET c == Call(d, st, "w") IN
           IF c.o = "int" THEN <<lf, c.st, "go">> ELSE IF c.o = "fail" THEN <<lf, c.st, "err">>
           ELSE LET k == Size(d.ws, c.st, lf)
                    t == [Tick(d.ws, c.st) EXCEPT !.data = Put(@, c.st.pos, k), !.pos = @ + k, !.dirty = TRUE] IN
                <<lf - k, t, IF lf = k THEN "next" ELSE "go">>
      [] step.a = "seek" -> LET c == Call(d, st, "s") IN IF c.o = "fail" THEN <<0, c.st, "err">> ELSE <<0, [c.st EXCEPT !.pos = 0], "next">>
      [] step.a = "len" -> LET c == Call(d, st, "l") IN IF c.o = "fail" THEN <<0, c.st, "err">> ELSE <<0, [c.st EXCEPT !.got = Append(@, Len(c.st.data))], "next">>
      [] step.a = "trunc" ->
           LET c == Call(d, st, "t") IN
           IF c.o = "fail" THEN <<0, c.st, "err">>
           ELSE <<0, IF Len(c.st.data) > step.n THEN [c.st EXCEPT !.data = SubSeq(@, 1, step.n), !.dirty = TRUE] ELSE c.st, "next">>
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(d, p, i, lf, st) ==
    IF i > Len(p) THEN [res |-> "ok", s |-> st]
    ELSE LET x == Iter(d, p[i], lf, st) IN
         IF x[3] = "err" THEN [res |-> "err", s |-> x[2]]
         ELSE IF x[3] = "go" THEN RunFrom(d, p, i, x[1], x[2])
         ELSE RunFrom(d, p, i + 1, IF i < Len(p) THEN p[i + 1].n ELSE 0, x[2])
Ref(p) == RunFrom(Plain, p, 1, p[1].n, S0)

Init == dev \in Devs /\ prog = <<>> /\ pc = 0 /\ left = 0 /\ s = S0 /\ res = "new"
Load == /\ pc = 0
        /\ prog' \in Progs
        /\ pc' = 1 /\ left' = prog'[1].n /\ res' = "run"
        /\ UNCHANGED <<dev, s>>
        /\ (Len(prog') = 1 /\ prog'[1].a = "seek" =>
              PrintT("SCN " \o ToJson(IF Kind = "sched" THEN [rs |-> dev.rs, ws |-> dev.ws, int |-> dev.int]
                                      ELSE [kinds |-> SetToSeq(dev.kinds), once |-> dev.once])))
Step == /\ pc > 0 /\ res = "run"
        /\ LET x == Iter(dev, prog[pc], left, s) IN
           /\ s' = x[2]
           /\ pc' = IF x[3] = "next" THEN pc + 1 ELSE pc
           /\ res' = IF x[3] = "err" THEN "err" ELSE IF x[3] = "next" /\ pc = Len(prog) THEN "ok" ELSE "run"
           /\ left' = IF x[3] = "next" /\ pc < Len(prog) THEN prog[pc + 1].n ELSE x[1]
        /\ UNCHANGED <<dev, prog>>
Next == Load \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Eq == LET r == Ref(prog) IN res = r.res /\ s.data = r.s.data /\ s.got = r.s.got
Ev == LET r == Ref(prog)
          o == [a |-> "prog", type |-> "", fmt |-> ""] IN
      IF Kind = "sched"
      THEN [op |-> o, ref |-> [res |-> r.res, changed |-> r.s.data # S0.data], runs |-> <<[res |-> res, bytes |-> s.data = r.s.data, shown |-> s.got = r.s.got]>>, faults |-> <<>>]
      ELSE [op |-> o, ref |-> [res |-> r.res, changed |-> r.s.data # S0.data], runs |-> <<>>,
            faults |-> <<[res |-> res, eq |-> Eq, same |-> s.data = S0.data, clean |-> s.clean, hit |-> s.hit, kinds |-> "", once |-> dev.once]>>]
Inv == res \in {"ok", "err"} => StreamsBad(Ev) = <<>>
Stops == res \in {"ok", "err"} => (s.hit => res = "err")
Ends == <>(res \in {"ok", "err"})
=============================================================================
