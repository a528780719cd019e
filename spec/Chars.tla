------------------------------- MODULE Chars -------------------------------
(* Texts, character by character, and the numbers written in them.  Numbers *)
(* are counted in units of 1/1020, so that quarters, twentieths and the     *)
(* 255ths of colour components are all whole.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Unit == 1020
Ch(s, i) == SubSeq(s, i, i)
Has(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c

DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitVal == [c \in {DigitSeq[i] : i \in 1..10} |-> (CHOOSE i \in 1..10 : DigitSeq[i] = c) - 1]
IsDigit(c) == c \in DOMAIN DigitVal
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerOf == [c \in {UpperSeq[i] : i \in 1..26} |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
LowerCh(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))
HexVal == [c \in DOMAIN DigitVal \cup {"a", "b", "c", "d", "e", "f"} |->
    IF IsDigit(c) THEN DigitVal[c] ELSE 9 + (CHOOSE i \in 1..6 : LowerSeq[i] = c)]
IsHex(s) == \A i \in 1..Len(s) : LowerCh(Ch(s, i)) \in DOMAIN HexVal
HexAt(s, i) == 16 * HexVal[LowerCh(Ch(s, i))] + HexVal[LowerCh(Ch(s, i + 1))]

\* the parts between separators, without the empty ones
RECURSIVE SplitAt(_, _, _, _)
SplitAt(s, seps, i, from) ==
    IF i > Len(s) THEN (IF i > from THEN <<SubSeq(s, from, i - 1)>> ELSE <<>>)
    ELSE IF Ch(s, i) \in seps
    THEN (IF i > from THEN <<SubSeq(s, from, i - 1)>> ELSE <<>>) \o SplitAt(s, seps, i + 1, i + 1)
    ELSE SplitAt(s, seps, i + 1, from)
Blank == {" ", "\t", "\n"}
Words(s) == SplitAt(s, Blank, 1, 1)
CommaWords(s) == SplitAt(s, Blank \cup {","}, 1, 1)
ListWords(s) == SplitAt(s, Blank \cup {",", "[", "]"}, 1, 1)

\* <<position after the digits from i on, their value>>
RECURSIVE Digits(_, _, _)
Digits(s, i, acc) == IF i <= Len(s) /\ IsDigit(Ch(s, i)) THEN Digits(s, i + 1, 10 * acc + DigitVal[Ch(s, i)])
                     ELSE <<i, acc>>
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

At(s, i) == IF i <= Len(s) THEN Ch(s, i) ELSE ""
NoNum == [ok |-> FALSE, whole |-> FALSE, n |-> 0, exact |-> TRUE]
\* the number a word stands for; whole says it is written as an integer
Number(s) ==
    LET neg == At(s, 1) = "-"
        b == IF At(s, 1) \in {"-", "+"} THEN 2 ELSE 1
        ip == Digits(s, b, 0)
        dot == At(s, ip[1]) = "."
        fp == IF dot THEN Digits(s, ip[1] + 1, ip[2]) ELSE ip
        frac == IF dot THEN fp[1] - ip[1] - 1 ELSE 0
        some == ip[1] > b \/ frac > 0
        ex == At(s, fp[1]) \in {"e", "E"}
        xneg == ex /\ At(s, fp[1] + 1) = "-"
        xb == fp[1] + (IF ex THEN (IF At(s, fp[1] + 1) \in {"-", "+"} THEN 2 ELSE 1) ELSE 0)
        xp == IF ex THEN Digits(s, xb, 0) ELSE fp
        end == IF ex THEN xp[1] ELSE fp[1]
        exp == (IF ex THEN (IF xneg THEN 0 - xp[2] ELSE xp[2]) ELSE 0) - frac
        units == IF exp >= 0 THEN fp[2] * Pow10(exp) * Unit ELSE (fp[2] * Unit) \div Pow10(0 - exp)
        exact == exp >= 0 \/ (fp[2] * Unit) % Pow10(0 - exp) = 0
    IN IF ~some \/ (ex /\ xp[1] = xb) \/ end <= Len(s) THEN NoNum
       ELSE [ok |-> TRUE, whole |-> ~dot /\ ~ex, n |-> IF neg THEN 0 - units ELSE units, exact |-> exact]
\* towards zero
Trunc(n) == IF n >= 0 THEN Unit * (n \div Unit) ELSE 0 - Unit * ((0 - n) \div Unit)
=============================================================================
