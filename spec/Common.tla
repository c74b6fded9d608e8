------------------------------- MODULE Common -------------------------------
(* Small vocabulary shared by all specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Filter(s, P(_)) == SelectSeq(s, P)
FirstOf(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Keep(s, i, j) == SubSeq(s, i, j)
AllI(s, P(_)) == \A i \in DOMAIN s : P(s[i])
AnyI(s, P(_)) == \E i \in DOMAIN s : P(s[i])
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Bool(x) == IF x THEN <<"true">> ELSE <<"false">>

(* ---- text seen as a sequence of one-character strings ---- *)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [d \in Digits |->
    CHOOSE n \in 0..9 : d = ToString(n)]
IsDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits
RECURSIVE StrNat(_)
StrNat(s) == IF Len(s) = 0 THEN 0
             ELSE StrNat(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitVal[SubSeq(s, Len(s), Len(s))]
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s
(* ASCII case *)
UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER == "abcdefghijklmnopqrstuvwxyz"
LowMap == [c \in {SubSeq(UPPER, i, i) : i \in 1..26} |->
    LET i == CHOOSE i \in 1..26 : SubSeq(UPPER, i, i) = c IN SubSeq(LOWER, i, i)]
LowC(c) == IF c \in DOMAIN LowMap THEN LowMap[c] ELSE c
RECURSIVE Lower(_)
Lower(s) == IF Len(s) = 0 THEN "" ELSE LowC(SubSeq(s, 1, 1)) \o Lower(SubSeq(s, 2, Len(s)))
EqCI(a, b) == a = b \/ (Len(a) = Len(b) /\ Lower(a) = Lower(b))
PRINTABLE == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
PrintC == {SubSeq(PRINTABLE, i, i) : i \in 1..Len(PRINTABLE)}
CharSet(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
(* decimal text -> canonical decimal text of an unsigned 32 bit number, <<>> if it is none.
   (kept as text: TLC integers are 32 bit signed) *)
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF Len(a) = 0 THEN TRUE
               ELSE LET x == DigitVal[SubSeq(a,1,1)] y == DigitVal[SubSeq(b,1,1)] IN
                    IF x < y THEN TRUE ELSE IF x > y THEN FALSE
                    ELSE LexLe(SubSeq(a,2,Len(a)), SubSeq(b,2,Len(b)))
FitsDec(s, max) == Len(s) < Len(max) \/ (Len(s) = Len(max) /\ LexLe(s, max))
U32Text(s0) ==
    LET s == IF Len(s0) > 1 /\ SubSeq(s0,1,1) = "+" THEN SubSeq(s0, 2, Len(s0)) ELSE s0 IN
    IF ~IsDigits(s) THEN <<>>
    ELSE LET c == StripZeros(s) IN IF FitsDec(c, "4294967295") THEN <<c>> ELSE <<>>
=============================================================================
