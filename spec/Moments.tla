------------------------------- MODULE Moments -------------------------------
(* Dates and times at the edges of their ranges, and the texts that differ   *)
(* from a well-formed one in few characters.  TLC checks that text and moment *)
(* agree; the cases are exported and replayed with the real code.             *)
EXTENDS DateTimeFmt, Json
CONSTANTS Mode,      \* "moments" or "texts"
          Edits,     \* changed characters
          Export
Years == {1, 999, 1900, 1969, 1970, 2000, 2020, 2021, 9999}
Days(y) == {<<1, 1>>, <<2, 28>>, <<3, 1>>, <<12, 31>>} \cup (IF IsLeap(y) THEN {<<2, 29>>} ELSE {})
Clocks == {<<0, 0, 0>>, <<23, 59, 59>>, <<12, 30, 0>>}
Micros == {0, 1, 100000, 999999}
Offsets == {0, 1, -1, 330, -480, 840, 1439, -1439}
Kind(o) == IF o = 0 THEN {"utc", "zero"} ELSE {"fixed"} \cup (IF o = 330 THEN {"named"} ELSE {})     \* (named UTC, though it is not)
Moments_ == UNION {{<<"dt", <<y, d[1], d[2], c[1], c[2], c[3], u>>, o, k>> :
                      d \in Days(y), c \in Clocks, u \in Micros, k \in Kind(o)} :
                   y \in Years, o \in Offsets}
Seeds == {"2020-02-29T23:59:59.123456+05:30", "2021-12-31T00:00:00Z", "1999-01-09T10:20:30.5-08:00",
          "2020-02-29", "23:59:59", "10:20:30.25", "0001-01-01T00:00:00+00:00"}
Few == {"2021-12-31T00:00:00Z", "23:59:59"}
Chars == {"0", "9", "3", "-", ":", ".", "T", "Z", "+"}
Edited(t) == {SubSeq(t, 1, i - 1) \o DropFrom(t, i + 1) : i \in 1..Len(t)}
               \cup {SubSeq(t, 1, i - 1) \o c \o DropFrom(t, i + 1) : i \in 1..Len(t), c \in Chars}
               \cup {SubSeq(t, 1, i) \o c \o DropFrom(t, i + 1) : i \in 0..Len(t), c \in Chars}
VARIABLES x, n
vars == <<x, n>>
Init == /\ n = 0
        /\ x \in (IF Mode = "texts" THEN (IF Edits = 2 THEN Few ELSE Seeds) ELSE {"-"})
Next == /\ IF Mode = "texts" THEN n < Edits /\ x' \in Edited(x)
           ELSE n = 0 /\ x' \in Moments_
        /\ n' = n + 1
        /\ (Export => PrintT(ToJson(<<"JWCASE", x'>>)))
Spec == Init /\ [][Next]_vars
IsMoment == Mode = "moments" /\ n = 1
IsText == Mode = "texts"
\* ---------------------------------------------------------------- moments --
Normal(m) == <<"dt", m[2], m[3], IF m[3] = 0 THEN "utc" ELSE "fixed">>
NoMicros(m) == [m EXCEPT ![2][7] = 0]
TextKeeps == IsMoment => /\ ParseDT(FmtDT(x, FALSE)) = Normal(x)
                         /\ ParseDT(FmtDT(x, TRUE)) = NoMicros(Normal(x))
(* Zero-padded, fixed width.                                                  *)
Shape == IsMoment => LET t == FmtDT(x, TRUE) IN
           /\ Len(t) = (IF x[4] = "utc" THEN 20 ELSE 25)
           /\ \A i \in {5, 8} : Ch(t, i) = "-"
           /\ Ch(t, 11) = "T" /\ Ch(t, 14) = ":" /\ Ch(t, 17) = ":"
           /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} : IsDigitCh(Ch(t, i))
DateKeeps == IsMoment => LET f == x[2] IN
               /\ ParseDate(FmtDate(f[1], f[2], f[3])) = <<"date", f[1], f[2], f[3]>>
               /\ ParseTime(FmtTime(f[4], f[5], f[6], f[7], FALSE)) = <<"time", f[4], f[5], f[6], f[7]>>
(* The same instant, told with another offset, is the same instant.           *)
SameInstant == IsMoment /\ x[2][4] = 12 => 
    \A o \in Offsets : AbsInt(o - x[3]) <= 11 * 60 =>
      LET total == x[2][4] * 60 + x[2][5] + (o - x[3])
          y == [x EXCEPT ![2][4] = total \div 60, ![2][5] = total % 60, ![3] = o]
      IN InstantOf(y) = InstantOf(x)
\* ------------------------------------------------------------------ texts --
Valid(m) == LET f == m[2] IN
    /\ f[1] \in 1..9999 /\ f[2] \in 1..12 /\ f[3] \in 1..DaysIn(f[1], f[2])
    /\ f[4] \in 0..23 /\ f[5] \in 0..59 /\ f[6] \in 0..59 /\ f[7] \in 0..999999
    /\ AbsInt(m[3]) < 1440
TextParses == IsText => LET r == ParseDT(x) IN
    r \in {BAD, ODD} \/ (r[1] = "dt" /\ Valid(r) /\ ParseDT(FmtDT(r, FALSE)) = r)
DateParses == IsText => LET r == ParseDate(x) IN
    r \in {BAD, ODD} \/ ParseDate(FmtDate(r[2], r[3], r[4])) = r
TimeParses == IsText => LET r == ParseTime(x) IN
    r \in {BAD, ODD} \/ ParseTime(FmtTime(r[2], r[3], r[4], r[5], FALSE)) = r
(* No text is a datetime and a date or a time as well.                        *)
OneMeaning == IsText => Cardinality({r \in {ParseDT(x), ParseDate(x), ParseTime(x)} : r \notin {BAD, ODD}}) <= 1
=============================================================================
