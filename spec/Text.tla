-------------------------------- MODULE Text --------------------------------
(* String operations on TLC strings: characters, numerals, case styles.      *)
EXTENDS Naturals, Integers, Sequences, TLC, FiniteSets

UpperChars == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerChars == "abcdefghijklmnopqrstuvwxyz"
DigitChars == "0123456789"

Ch(s, i) == SubSeq(s, i, i)
CharsOf(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
StrTail(s) == SubSeq(s, 2, Len(s))
DropFrom(s, i) == SubSeq(s, i, Len(s))

UpperSet == CharsOf(UpperChars)
LowerSet == CharsOf(LowerChars)
DigitSet == CharsOf(DigitChars)

PosIn(s, c) == CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = c
LowerMap == [c \in UpperSet |-> Ch(LowerChars, PosIn(UpperChars, c))]
UpperMap == [c \in LowerSet |-> Ch(UpperChars, PosIn(LowerChars, c))]
DigitMap == [c \in DigitSet |-> PosIn(DigitChars, c) - 1]

LowerCh(c) == IF c \in UpperSet THEN LowerMap[c] ELSE c
UpperCh(c) == IF c \in LowerSet THEN UpperMap[c] ELSE c
IsAlphaCh(c) == c \in UpperSet \/ c \in LowerSet
IsDigitCh(c) == c \in DigitSet

(* TLC's lexicographically unordered strings: positions of a character.      *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i) = c THEN i ELSE FindFrom(s, c, i + 1)
Find(s, c) == FindFrom(s, c, 1)
HasCh(s, c) == Find(s, c) # 0

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, c, i, acc) ==
    LET j == FindFrom(s, c, i) IN
    IF j = 0 THEN Append(acc, SubSeq(s, i, Len(s)))
    ELSE SplitFrom(s, c, j + 1, Append(acc, SubSeq(s, i, j - 1)))
Split(s, c) == SplitFrom(s, c, 1, <<>>)

RECURSIVE MapChars(_, _, _)
MapChars(F(_), s, i) == IF i > Len(s) THEN ""
                        ELSE F(SubSeq(s, i, i)) \o MapChars(F, s, i + 1)
Lower(s) == MapChars(LowerCh, s, 1)
Upper(s) == MapChars(UpperCh, s, 1)
DashToUnder(s) == MapChars(LAMBDA c : IF c = "-" THEN "_" ELSE c, s, 1)
UnderToDash(s) == MapChars(LAMBDA c : IF c = "_" THEN "-" ELSE c, s, 1)

(* str.title(): the first letter of every run of letters upper, others lower *)
RECURSIVE TitleFrom(_, _, _)
TitleFrom(s, i, prevAlpha) ==
    IF i > Len(s) THEN ""
    ELSE LET c == SubSeq(s, i, i) IN
         (IF prevAlpha THEN LowerCh(c) ELSE UpperCh(c))
            \o TitleFrom(s, i + 1, IsAlphaCh(c))
Title(s) == TitleFrom(s, 1, FALSE)

RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN "" ELSE ss[i] \o Concat(ss, i + 1)
RECURSIVE Join(_, _, _)
Join(ss, sep, i) == IF i > Len(ss) THEN ""
                    ELSE (IF i > 1 THEN sep ELSE "") \o ss[i] \o Join(ss, sep, i + 1)

LowerFirst(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o StrTail(s)
UpperFirst(s) == IF s = "" THEN "" ELSE UpperCh(Ch(s, 1)) \o StrTail(s)

(* The four case styles.                                                     *)
CamelCase(s) ==
    LET t == DashToUnder(s)
        parts == Split(t, "_")
        u == IF Len(parts) > 1
             THEN Concat([i \in 1..Len(parts) |-> Title(parts[i])], 1) ELSE t
    IN LowerFirst(u)
PascalCase(s) == UpperFirst(CamelCase(s))
RECURSIVE HumpsFrom(_, _)
HumpsFrom(s, i) ==
    IF i > Len(s) THEN ""
    ELSE LET c == SubSeq(s, i, i) IN
         IF i > 1 /\ c \in UpperSet /\ SubSeq(s, i - 1, i - 1) \in LowerSet
         THEN "_" \o LowerCh(c) \o HumpsFrom(s, i + 1)
         ELSE LowerCh(c) \o HumpsFrom(s, i + 1)
SnakeCase(s) == HumpsFrom(LowerFirst(DashToUnder(s)), 1)
LispCase(s) == UnderToDash(SnakeCase(s))

(* Key transformers by name; "" is none.                                     *)
RECURSIVE StripUnder(_)
StripUnder(s) == IF s # "" /\ Ch(s, 1) = "_" THEN StripUnder(StrTail(s)) ELSE s
KT(kt, s) == CASE kt = ""       -> s
               [] kt = "camel"  -> CamelCase(s)
               [] kt = "snake"  -> SnakeCase(s)
               [] kt = "pascal" -> PascalCase(s)
               [] kt = "lisp"   -> LispCase(s)
               [] kt = "upper"  -> Upper(s)
               [] kt = "lower"  -> Lower(s)
               [] kt = "prefix" -> "p_" \o s
               [] kt = "unprefix" -> IF StartsWith(s, "p_") THEN DropFrom(s, 3) ELSE s

(* Numerals.                                                                 *)
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in DigitSet
RECURSIVE NatFrom(_, _, _)
NatFrom(s, i, acc) == IF i > Len(s) THEN acc
                      ELSE NatFrom(s, i + 1, 10 * acc + DigitMap[SubSeq(s, i, i)])
ParseNat(s) == NatFrom(s, 1, 0)          \* at most nine digits
Zeros == "0000000000"
Pad(n, w) == LET t == ToString(n) IN
             IF Len(t) >= w THEN t ELSE SubSeq(Zeros, 1, w - Len(t)) \o t
RECURSIVE DropTrailingZeros(_)
DropTrailingZeros(s) == IF Len(s) > 1 /\ Ch(s, Len(s)) = "0"
                        THEN DropTrailingZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
Plain(s) == \A i \in 1..Len(s) :
              SubSeq(s, i, i) \in (UpperSet \cup LowerSet \cup DigitSet
                                   \cup CharsOf("_-.:+/ "))
=============================================================================
