------------------------------ MODULE SvdText -------------------------------
(***************************************************************************)
(* Text operations on TLA+ strings (TLC implements Len, SubSeq and \o on   *)
(* them).                                                                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE SvdNat

Chr(s, i) == SubSeq(s, i, i)

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
PrintableChars == {Chr(Printable, i) : i \in 1..Len(Printable)}
CodeTable == [c \in PrintableChars |-> 31 + (CHOOSE i \in 1..Len(Printable) : Chr(Printable, i) = c)]
Code(c) == IF c \in PrintableChars THEN CodeTable[c] ELSE 500

UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerS == "abcdefghijklmnopqrstuvwxyz"
UpperChars == {Chr(UpperS, i) : i \in 1..26}
LowerTable == [c \in UpperChars |-> Chr(LowerS, CHOOSE i \in 1..26 : Chr(UpperS, i) = c)]
LowerC(c) == IF c \in UpperChars THEN LowerTable[c] ELSE c
RECURSIVE LowerR(_, _, _)
LowerR(s, i, acc) == IF i > Len(s) THEN acc ELSE LowerR(s, i + 1, acc \o LowerC(Chr(s, i)))
Lower(s) == LowerR(s, 1, "")
LowerChars == {Chr(LowerS, i) : i \in 1..26}
UpperTable == [c \in LowerChars |-> Chr(UpperS, CHOOSE i \in 1..26 : Chr(LowerS, i) = c)]
RECURSIVE UpperR(_, _, _)
UpperR(s, i, acc) == IF i > Len(s) THEN acc
    ELSE UpperR(s, i + 1, acc \o (IF Chr(s, i) \in LowerChars THEN UpperTable[Chr(s, i)] ELSE Chr(s, i)))
Upper(s) == UpperR(s, 1, "")

(* lexicographic order by code point: s before-or-equal t *)
RECURSIVE StrCmpR(_, _, _)
StrCmpR(s, t, i) ==
    IF i > Len(s) THEN (IF i > Len(t) THEN 1 ELSE 0)
    ELSE IF i > Len(t) THEN 2
    ELSE IF Chr(s, i) = Chr(t, i) THEN StrCmpR(s, t, i + 1)
    ELSE IF Code(Chr(s, i)) < Code(Chr(t, i)) THEN 0 ELSE 2
(* 0 smaller, 1 equal, 2 greater *)
StrCmp(s, t) == IF s = t THEN 1 ELSE StrCmpR(s, t, 1)

RECURSIVE FindR(_, _, _)
FindR(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindR(s, p, i + 1)
(* position of the first occurrence of p in s, 0 if there is none *)
Find(s, p) == FindR(s, p, 1)
Contains(s, p) == Find(s, p) # 0

RECURSIVE Replace(_, _, _)
Replace(s, p, r) ==
    LET at == Find(s, p)
    IN IF at = 0 THEN s
       ELSE SubSeq(s, 1, at - 1) \o r \o Replace(SubSeq(s, at + Len(p), Len(s)), p, r)

RECURSIVE Split(_, _)
Split(s, p) ==
    LET at == Find(s, p)
    IN IF at = 0 THEN <<s>>
       ELSE <<SubSeq(s, 1, at - 1)>> \o Split(SubSeq(s, at + Len(p), Len(s)), p)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* white space in the sense of Unicode *)
WideBlanks == "                 　"
Blanks == {" ", "\t", "\n", "\r"} \cup {Chr(WideBlanks, i) : i \in 1..Len(WideBlanks)}
RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ Chr(s, 1) \in Blanks THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # "" /\ Chr(s, Len(s)) \in Blanks THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))

DigitChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
BinChars == {"0", "1"}
HexChars == DigitChars \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
WordChars == DigitChars \cup LowerChars \cup UpperChars \cup {"_"}
AllIn(s, set) == \A i \in 1..Len(s) : Chr(s, i) \in set
IsDigits(s) == s # "" /\ AllIn(s, DigitChars)

HexLower == "0123456789abcdef"
DigitVal == [c \in HexChars |-> (CHOOSE i \in 1..16 : Chr(HexLower, i) = LowerC(c)) - 1]

RECURSIVE ToNatR(_, _, _, _)
ToNatR(s, base, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE ToNatR(s, base, i + 1, NAdd(NMul(acc, base), NOf(DigitVal[Chr(s, i)])))
(* the number a digit string denotes in the given base *)
ToNat(s, base) == ToNatR(s, base, 1, <<>>)

=============================================================================
