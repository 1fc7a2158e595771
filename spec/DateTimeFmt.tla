----------------------------- MODULE DateTimeFmt -----------------------------
(* RFC3339 text of dates and times: rendering (dump) and parsing (load).     *)
(*   <<"dt", <<y,mo,d,h,mi,s,us>>, off, kind>>  aware, off in minutes,       *)
(*        kind "utc" (named UTC), "zero" (offset 0, other name) or "fixed"   *)
(*   <<"dtn", <<y,mo,d,h,mi,s,us>>>> naive; <<"date",y,m,d>>;                *)
(*   <<"time",h,mi,s,us>>                                                    *)
EXTENDS Text

AbsInt(n) == IF n < 0 THEN -n ELSE n

FmtDate(y, m, d) == Pad(y, 4) \o "-" \o Pad(m, 2) \o "-" \o Pad(d, 2)
FmtTime(h, mi, s, us, strip) ==
    Pad(h, 2) \o ":" \o Pad(mi, 2) \o ":" \o Pad(s, 2)
      \o (IF us # 0 /\ ~strip THEN "." \o Pad(us, 6) ELSE "")
FmtOff(off) == (IF off < 0 THEN "-" ELSE "+")
                 \o Pad(AbsInt(off) \div 60, 2) \o ":" \o Pad(AbsInt(off) % 60, 2)
FmtFields(f, strip) == FmtDate(f[1], f[2], f[3]) \o "T"
                         \o FmtTime(f[4], f[5], f[6], f[7], strip)
FmtDT(v, strip) ==
    FmtFields(v[2], strip) \o (IF v[4] = "utc" THEN "Z" ELSE FmtOff(v[3]))
(* A naive datetime gets the local offset; no offset at all is +00:00.       *)
FmtNaive(v, strip, localoff) ==
    FmtFields(v[2], strip) \o FmtOff(localoff)

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m \in {4, 6, 9, 11} THEN 30
                ELSE IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE 31

(* Days since 0001-01-01 and the instant in minutes; for instants.           *)
DaysBefore(y) == LET z == y - 1 IN 365 * z + z \div 4 - z \div 100 + z \div 400
RECURSIVE DaysBeforeMonth(_, _)
DaysBeforeMonth(y, m) == IF m = 1 THEN 0 ELSE DaysBeforeMonth(y, m - 1) + DaysIn(y, m - 1)
DayNumber(y, m, d) == DaysBefore(y) + DaysBeforeMonth(y, m) + d
InstantOf(v) == LET f == v[2]
                    mins == f[4] * 60 + f[5] - v[3]
                    carry == mins \div 1440
                IN <<DayNumber(f[1], f[2], f[3]) + carry, mins % 1440, f[6], f[7]>>

BAD == <<"bad">>
ODD == <<"odd">>    \* text on which the specification takes no position

(* A number of lo..hi digits taking up the whole of the text.                *)
Field(s, lo, hi) == Len(s) >= lo /\ Len(s) <= hi /\ AllDigits(s)

ParseDateParts(s) ==
    LET p == Split(s, "-") IN
    IF ~(Len(p) = 3 /\ Field(p[1], 4, 4) /\ Field(p[2], 1, 2) /\ Field(p[3], 1, 2))
    THEN BAD
    ELSE LET y == ParseNat(p[1])  m == ParseNat(p[2])  d == ParseNat(p[3]) IN
         IF y < 1 \/ m < 1 \/ m > 12 \/ d < 1 THEN BAD
         ELSE IF d > DaysIn(y, m) THEN BAD ELSE <<y, m, d>>

(* withFrac: the text has to end in a fraction of one to six digits.         *)
ParseTimeParts(s, withFrac) ==
    LET p == Split(s, ":") IN
    IF Len(p) # 3 THEN BAD
    ELSE LET q == Split(p[3], ".") IN
         IF Len(q) # (IF withFrac THEN 2 ELSE 1) THEN BAD
         ELSE IF ~(Field(p[1], 1, 2) /\ Field(p[2], 1, 2) /\ Field(q[1], 1, 2)) THEN BAD
         ELSE IF withFrac /\ ~(Field(q[2], 1, 6)) THEN BAD
         ELSE LET h == ParseNat(p[1])  mi == ParseNat(p[2])  s_ == ParseNat(q[1])
                  us == IF withFrac
                        THEN ParseNat(q[2] \o SubSeq(Zeros, 1, 6 - Len(q[2]))) ELSE 0
              IN IF h > 23 \/ mi > 59 \/ s_ > 59 THEN BAD ELSE <<h, mi, s_, us>>

ParseNaive(s, sep, withFrac) ==
    LET p == Split(s, sep) IN
    IF Len(p) # 2 THEN BAD
    ELSE LET a == ParseDateParts(p[1])  b == ParseTimeParts(p[2], withFrac) IN
         IF a = BAD \/ b = BAD THEN BAD ELSE a \o b

(* The fraction: the first dot that is followed by a digit; cut to 6 digits. *)
RECURSIVE FracStart(_, _)
FracStart(s, i) == IF i >= Len(s) THEN 0
                   ELSE IF Ch(s, i) = "." /\ Ch(s, i + 1) \in DigitSet THEN i
                   ELSE FracStart(s, i + 1)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i > Len(s) \/ Ch(s, i) \notin DigitSet THEN i - 1
                   ELSE DigitsEnd(s, i + 1)
CutFrac(s) == LET a == FracStart(s, 1)
                  e == DigitsEnd(s, a + 1)
              IN IF e - a > 6 THEN SubSeq(s, 1, a + 6) \o DropFrom(s, e + 1) ELSE s

OffsetInt(s) == IF s # "" /\ Len(s) <= 6 /\ AllDigits(s) THEN ParseNat(s) ELSE -1

TextOdd(s) == ~Plain(s) \/ HasCh(s, " ") \/ HasCh(s, "_")

ParseDT(s0) ==
    IF s0 = "" THEN BAD
    ELSE IF TextOdd(s0) THEN (IF FindFrom(s0, ":", 1) = 0 THEN BAD ELSE ODD)
    ELSE LET hasFrac == HasCh(s0, ".") IN
    IF hasFrac /\ FracStart(s0, 1) = 0 THEN BAD
    ELSE LET s == IF hasFrac THEN CutFrac(s0) ELSE s0 IN
    IF Ch(s, Len(s)) = "Z"
    THEN LET body == SubSeq(s, 1, Len(s) - 1)
             r == ParseNaive(body, "T", hasFrac)
             rl == ParseNaive(body, "t", hasFrac)
         IN IF r # BAD THEN <<"dt", r, 0, "utc">>
            ELSE IF rl # BAD THEN <<"dt", rl, 0, "utc">> ELSE BAD
    ELSE LET p == Split(s, "T") IN
         IF Len(p) # 2 THEN BAD
         ELSE LET plus == HasCh(p[2], "+")
                  q == Split(p[2], IF plus THEN "+" ELSE "-")
              IN IF Len(q) # 2 THEN BAD
                 ELSE LET o == Split(q[2], ":") IN
                      IF Len(o) # 2 THEN BAD
                      ELSE LET r == ParseNaive(p[1] \o "T" \o q[1], "T", hasFrac)
                               hh == OffsetInt(o[1])  mm == OffsetInt(o[2])
                           IN IF r = BAD THEN BAD
                              ELSE IF HasCh(q[2], "-") \/ HasCh(q[2], "+") THEN ODD
                              ELSE IF hh < 0 \/ mm < 0 THEN BAD
                              ELSE LET off == (IF plus THEN 1 ELSE -1) * (60 * hh + mm) IN
                                   IF AbsInt(off) >= 1440 THEN BAD
                                   ELSE <<"dt", r, off, IF off = 0 THEN "utc" ELSE "fixed">>

ParseDate(s) ==
    IF s = "" THEN BAD
    ELSE IF TextOdd(s) THEN (IF HasCh(s, "-") THEN ODD ELSE BAD)
    ELSE LET body == IF Ch(s, Len(s)) = "Z" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
             r == ParseDateParts(body)
         IN IF r = BAD THEN BAD ELSE <<"date", r[1], r[2], r[3]>>

ParseTime(s) ==
    IF s = "" THEN BAD
    ELSE IF TextOdd(s) THEN (IF HasCh(s, ":") THEN ODD ELSE BAD)
    ELSE LET body == IF Ch(s, Len(s)) = "Z" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
             r == ParseTimeParts(body, HasCh(s, "."))
         IN IF r = BAD THEN BAD ELSE <<"time", r[1], r[2], r[3], r[4]>>
=============================================================================
