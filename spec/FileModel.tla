----------------------------- MODULE FileModel -----------------------------
(* How an edit is meant to transform a file: tags are regions that are
   replaced in place, inserted at the format's place for them or taken out;
   every stored size and offset follows. *)
EXTENDS Layouts
(* state: [fmt, L (regions), size (declared), refs (absolute positions of audio)] *)
RECURSIVE SumLen(_)
SumLen(L) == IF L = <<>> THEN 0 ELSE L[1].len + SumLen(Tail(L))
Pos(L, i) == SumLen(SubSeq(L, 1, i - 1))
Idx(L, P(_)) == {i \in DOMAIN L : P(L[i])}
AudioIdx(L) == Idx(L, LAMBDA r : r.k = "audio")
LastAudio(L) == CHOOSE i \in AudioIdx(L) : \A j \in AudioIdx(L) : j <= i
File0(fmt, L) == [fmt |-> fmt, L |-> L, size |-> SumLen(L), refs |-> [k \in 1..1 |-> Pos(L, LastAudio(L))]]

Owns(ty, r) == r.k = "tag" /\ (r.ty = ty \/ (ty = "VorbisComments" /\ r.ty = "FlacPicture"))
PlaceFor(fmt, ty, L) ==     \* insert before this index
    CASE ty = "Id3v2" /\ fmt \notin {"wav", "aiff"} -> 1
      [] ty = "Ape" -> LastAudio(L) + 1
      [] ty = "VorbisComments" /\ fmt = "flac" -> 1 + CHOOSE i \in AudioIdx(L) : \A j \in AudioIdx(L) : i <= j
      [] ty = "Mp4Ilst" -> 1 + CHOOSE i \in AudioIdx(L) : L[i].tok # "" /\ L[i].tok # "ftyp" /\ \E x \in {"moov", "moov@"} : SubSeq(L[i].tok, 1, 4) = "moov"
      [] OTHER -> Len(L) + 1
LenOf(c) == IF c = "B" THEN 6 ELSE 4

(* one replacement of regions i..j by new regions, everything stored follows *)
Replace(f, i, j, new) ==
    LET at == Pos(f.L, i)
        delta == SumLen(new) - SumLen(SubSeq(f.L, i, j)) IN
    [f EXCEPT !.L = SubSeq(f.L, 1, i - 1) \o new \o SubSeq(f.L, j + 1, Len(f.L)),
              !.size = @ + delta,
              !.refs = [k \in DOMAIN @ |-> IF @[k] > at \/ (@[k] = at /\ i > j) THEN @[k] + delta ELSE @[k]]]
RECURSIVE TakeOut(_, _)
TakeOut(f, ty) ==
    LET I == Idx(f.L, LAMBDA r : Owns(ty, r)) IN
    IF I = {} THEN f
    ELSE LET i == CHOOSE i \in I : \A j \in I : j <= i IN
         TakeOut(IF Mandatory(f.fmt, ty) THEN Replace(f, i, i, <<[f.L[i] EXCEPT !.k = "none", !.len = 1, !.c = ""]>>) ELSE Replace(f, i, i, <<>>), ty)
Put(f, ty, c) ==
    LET I == Idx(f.L, LAMBDA r : Owns(ty, r))
        N == Idx(f.L, LAMBDA r : r.k = "none" /\ r.ty = ty)
        reg == [tok |-> "", k |-> "tag", ty |-> ty, len |-> LenOf(c), c |-> c] IN
    IF N # {} THEN LET i == CHOOSE i \in N : TRUE IN Replace(f, i, i, <<reg>>)
    ELSE IF I = {} THEN LET i == PlaceFor(f.fmt, ty, f.L) IN Replace(f, i, i - 1, <<reg>>)
    ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j
             (* a following padding region absorbs growth *)
             padded == i < Len(f.L) /\ f.L[i + 1].k = "pad" /\ f.L[i + 1].len + f.L[i].len > LenOf(c)
             g == IF padded THEN Replace(f, i, i + 1, <<reg, [f.L[i + 1] EXCEPT !.len = f.L[i + 1].len + f.L[i].len - LenOf(c)]>>)
                  ELSE Replace(f, i, i, <<reg>>)
             rest == Idx(g.L, LAMBDA r : Owns(ty, r)) \ {i} IN
         IF rest = {} THEN g
         ELSE LET drop(h, q) == Replace(h, q, q, <<>>)
                  RECURSIVE D(_, _)
                  D(h, qs) == IF qs = {} THEN h ELSE LET q == CHOOSE q \in qs : \A z \in qs : z <= q IN D(drop(h, q), qs \ {q})
              IN D(g, rest)

Do(f, op) ==   \* [f, res]
    CASE op.a = "save" -> IF op.type \notin Writable(f.fmt) THEN [f |-> f, res |-> IF op.via \in {"tagged", "taggedpath"} THEN "ok" ELSE "err"]
                          ELSE [f |-> Put(f, op.type, op.c), res |-> "ok"]
      [] op.a = "remove" -> IF op.type \notin Readable(f.fmt) THEN [f |-> f, res |-> "err"] ELSE [f |-> TakeOut(f, op.type), res |-> "ok"]
      [] op.a = "resave" -> [f |-> f, res |-> "ok"]
      [] OTHER -> [f |-> f, res |-> "ok"]

(* ---------------- abstraction to the observable file ---------------- *)
TyOrder == <<"Id3v2", "Ape", "VorbisComments", "Mp4Ilst", "RiffInfo", "AiffText", "Id3v1">>
Item(c) == [id |-> "x", k |-> "", f |-> <<c>>, fl |-> ""]
ContentOf(L, ty) == LET s == SelectSeq(L, LAMBDA r : Owns(ty, r)) IN [i \in 1..Len(s) |-> Item(s[i].c)]
RECURSIVE At(_, _)
At(L, p) == IF L = <<>> THEN "outside" ELSE IF p = 0 THEN L[1].tok \o L[1].k ELSE IF p < L[1].len THEN "inside" ELSE At(Tail(L), p - L[1].len)
Obs(f) ==
    LET L == f.L
        au == SelectSeq(L, LAMBDA r : r.k = "audio")
        fo == SelectSeq(L, LAMBDA r : r.k = "foreign")
        tys == SelectSeq(TyOrder, LAMBDA t : Idx(L, LAMBDA r : Owns(t, r)) # {}) IN
    [audio |-> [i \in DOMAIN au |-> au[i].tok], units |-> [i \in DOMAIN fo |-> [id |-> fo[i].tok, h |-> fo[i].tok]],
     decl |-> IF f.size = SumLen(L) THEN <<>> ELSE <<[w |-> "size", d |-> "x", a |-> "y"]>>,
     refs |-> [k \in DOMAIN f.refs |-> At(L, f.refs[k])],
     raw |-> [i \in DOMAIN tys |-> [ty |-> tys[i], n |-> IF tys[i] \in {"AiffText", "VorbisComments"} THEN 1 ELSE Len(ContentOf(L, tys[i]))]],
     tags |-> [i \in DOMAIN tys |-> [type |-> tys[i], hd |-> <<>>, items |-> ContentOf(L, tys[i])]],
     gen |-> [i \in DOMAIN tys |-> [type |-> tys[i], items |-> ContentOf(L, tys[i]), pics |-> <<>>]],
     len |-> SumLen(L), props |-> <<"p">>, rerr |-> "", ft |-> f.fmt]
=============================================================================
