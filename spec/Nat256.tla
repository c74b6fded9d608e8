------------------------------- MODULE Nat256 -------------------------------
(* Natural numbers beyond 32 bits: little endian digits to the base 256, without leading zeros *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
RECURSIVE Norm(_)
Norm(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Norm(SubSeq(a, 1, Len(a) - 1))
(* from big endian bytes, from a number *)
Nb(b) == Norm(Reverse(b))
RECURSIVE N(_)
N(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o N(n \div 256)
RECURSIVE ToInt(_)
ToInt(a) == IF a = <<>> THEN 0 ELSE IF Len(a) > 3 THEN 16777216 ELSE a[1] + 256 * ToInt(Tail(a))
At0(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == At0(a, i) + At0(b, i) + c IN <<s % 256>> \o AddC(a, b, i + 1, s \div 256)
Add(a, b) == AddC(a, b, 1, 0)
RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == a[i] - At0(b, i) - c IN <<(s + 256) % 256>> \o SubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
(* a - b, at least 0 *)
SubSat(a, b) == IF Cmp(a, b) <= 0 THEN <<>> ELSE Norm(SubC(a, b, 1, 0))
Sub1(a) == SubSat(a, <<1>>)
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > Len(a) THEN 0 ELSE (IF k + 1 - i >= 1 /\ k + 1 - i <= Len(b) THEN a[i] * b[k + 1 - i] ELSE 0) + Col(a, b, k, i + 1)
RECURSIVE MulC(_, _, _, _)
MulC(a, b, k, c) ==
    IF k >= Len(a) + Len(b) THEN N(c)
    ELSE LET s == Col(a, b, k, 1) + c IN <<s % 256>> \o MulC(a, b, k + 1, s \div 256)
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Norm(MulC(a, b, 1, 0))
(* big endian bytes as text *)
RECURSIVE HexText(_)
HexText(b) == IF b = <<>> THEN "" ELSE ToString(b[1]) \o "." \o HexText(Tail(b))
IntText(b) == HexText(b)
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiOf == [c \in {SubSeq(ASCII, i, i) : i \in 1..Len(ASCII)} |-> 31 + CHOOSE i \in 1..Len(ASCII) : SubSeq(ASCII, i, i) = c]
=============================================================================
