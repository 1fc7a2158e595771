------------------------------- MODULE Codec --------------------------------
(* What dump and load compute: an executable specification of jsons.         *)
(*                                                                           *)
(* A state S is a record                                                     *)
(*   w   : the world: the user's classes, enums, named tuples, NewTypes      *)
(*   f   : the registries, one per fork (fork 1 is the default one)          *)
(*   ann : the announced class names                                         *)
(* Values, types and outcomes are tagged tuples / records, described in      *)
(* DESIGN.md (section Encoding).                                             *)
EXTENDS DateTimeFmt

Max2(a, b) == IF a >= b THEN a ELSE b

\* ------------------------------------------------------------ outcomes ----
Ok(v)        == [t |-> "ok", v |-> v, w |-> <<>>]
OkW(v, w)    == [t |-> "ok", v |-> v, w |-> w]
ErrX(kind, arg, src, tgt, idx, msg) ==
    [t |-> "err", k |-> kind, a |-> arg, s |-> src, g |-> tgt, i |-> idx, m |-> msg, w |-> <<>>]
Err(kind)    == ErrX(kind, "", <<"any*">>, <<"any*">>, <<>>, "")
Unspec       == [t |-> "unspec", w |-> <<>>]
IsOk(r)  == r.t = "ok"
IsErr(r) == r.t = "err"
AddW(r, w) == IF w = <<>> THEN r ELSE [r EXCEPT !.w = w \o @]

NONE == <<"none">>
NOT  == <<"notype">>
NT   == <<"nonetype">>
Str(s) == <<"str", s>>
IntV(n) == <<"int", n>>
BoolV(b) == <<"bool", b>>
AnyStr == <<"anystr">>
EmptyFcn == [x \in {} |-> x]

ToSet(s) == {s[x] : x \in 1..Len(s)}
KOf(k) == [k EXCEPT !.verb = ToSet(k.verb)]
RECURSIVE Unhashable(_)
Unhashable(v) == \/ v[1] \in {"list", "dict", "set", "deque", "odict", "ddict", "ulist", "hdict"}
                 \/ v[1] = "tuple" /\ \E i \in 1..Len(v[2]) : Unhashable(v[2][i])
                 \/ v[1] = "nt" /\ \E i \in 1..Len(v[3]) : Unhashable(v[3][i])
RECURSIVE Hashable(_)
Hashable(v) == \/ v[1] \in {"int", "str", "bool", "flt", "none", "uuid", "date", "time", "dt", "dtn", "dec", "enum",
                            "td", "path", "anystr", "bigint", "fset", "cplx", "zi", "tz"}
               \/ v[1] = "tuple" /\ \A i \in 1..Len(v[2]) : Hashable(v[2][i])
               \/ v[1] = "nt" /\ \A i \in 1..Len(v[3]) : Hashable(v[3][i])

DeserFamily == {"DeserializationError", "UnfulfilledArgumentError",
                "SignatureMismatchError", "UnknownClassError", "DecodeError",
                "anydeser"}      \* (one of these)
Raise(j, T) == ErrX("DeserializationError", "", j, T, <<>>, "")

\* --------------------------------------------------------------- pairs ----
RECURSIVE PairIdx(_, _, _)
PairIdx(ps, key, i) == IF i > Len(ps) THEN 0
                       ELSE IF ps[i][1] = key THEN i ELSE PairIdx(ps, key, i + 1)
HasP(ps, key) == PairIdx(ps, key, 1) # 0
GetP(ps, key) == ps[PairIdx(ps, key, 1)][2]
PutP(ps, key, v) == LET i == PairIdx(ps, key, 1) IN
                    IF i = 0 THEN Append(ps, <<key, v>>) ELSE [ps EXCEPT ![i] = <<key, v>>]
DelP(ps, key) == SelectSeq(ps, LAMBDA p : p[1] # key)

\* -------------------------------------------------------------- numbers ---
FltOfInt(n) == <<"flt", IF n < 0 THEN -1 ELSE 1, AbsInt(n), 0>>
NumTags == {"int", "flt", "bool"}
AsFlt(v) == CASE v[1] = "int" -> FltOfInt(v[2])
              [] v[1] = "bool" -> FltOfInt(IF v[2] THEN 1 ELSE 0)
              [] OTHER -> v
(* Python's ==: 1 == 1.0 == True                                             *)
PyEq(a, b) == IF a[1] \in NumTags /\ b[1] \in NumTags THEN AsFlt(a) = AsFlt(b) ELSE a = b
FltStr(v) == (IF v[2] < 0 THEN "-" ELSE "") \o ToString(v[3]) \o "."
               \o (IF v[4] = 0 THEN "0" ELSE DropTrailingZeros(Pad(v[4], 6)))

Unsign(s) == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN StrTail(s) ELSE s
IsNeg(s) == s # "" /\ Ch(s, 1) = "-"
Loose_(s) == ~Plain(s) \/ HasCh(s, "_") \/ HasCh(s, " ")
NumOdd(s) == Loose_(s) /\ \/ ~Plain(s)
                          \/ \E i \in 1..Len(s) : Ch(s, i) \in DigitSet
                          \/ Lower(MapChars(LAMBDA c : IF c \in {" ", "+", "-"} THEN "" ELSE c, s, 1))
                                \in {"nan", "inf", "infinity"}

\* int(x), float(x), str(x), bool(x) of Python on the values of interest.
CastInt(v) ==
    CASE v[1] = "flt" -> Ok(IntV(v[2] * v[3]))
      [] v[1] = "str" ->
           LET u == Unsign(v[2]) IN
           IF AllDigits(u)
           THEN (IF Len(u) <= 9
                 THEN Ok(IntV(IF IsNeg(v[2]) THEN -ParseNat(u) ELSE ParseNat(u)))
                 ELSE Unspec)
           ELSE IF NumOdd(v[2]) THEN Unspec ELSE Err("cast")
      [] v[1] \in {"list", "dict", "tuple", "set", "obj", "dt", "dtn", "date", "time",
                   "td", "tz", "zi", "nt", "path", "fset", "deque", "none"} -> Err("cast")
      [] OTHER -> Unspec
(* Could Python read that as a number, although it is no plain numeral?      *)
ExpChars == DigitSet \cup {"e", "E", "+", "-", "."}
MayBeNumber(u) == \/ Lower(u) \in {"nan", "inf", "infinity"}
                  \/ /\ HasCh(u, "e") \/ HasCh(u, "E")
                     /\ \E i \in 1..Len(u) : Ch(u, i) \in DigitSet
                     /\ \A i \in 1..Len(u) : Ch(u, i) \in ExpChars
CastFloat(v) ==
    CASE v[1] = "int" -> Ok(FltOfInt(v[2]))
      [] v[1] = "bool" -> Ok(AsFlt(v))
      [] v[1] = "str" ->
           LET u == Unsign(v[2])  p == Split(u, ".")  sg == IF IsNeg(v[2]) THEN -1 ELSE 1 IN
           IF NumOdd(v[2]) THEN Unspec
           ELSE IF Len(p) = 1
           THEN (IF AllDigits(u)
                 THEN (IF Len(u) <= 9 /\ (sg = 1 \/ ParseNat(u) # 0)
                       THEN Ok(<<"flt", sg, ParseNat(u), 0>>) ELSE Unspec)
                 ELSE IF MayBeNumber(u) THEN Unspec ELSE Err("cast"))
           ELSE IF Len(p) = 2
           THEN (IF (p[1] = "" \/ AllDigits(p[1])) /\ (p[2] = "" \/ AllDigits(p[2]))
                     /\ (p[1] # "" \/ p[2] # "")
                 THEN (IF Len(p[1]) <= 9 /\ Len(p[2]) <= 6
                       THEN LET w == IF p[1] = "" THEN 0 ELSE ParseNat(p[1])
                                m == IF p[2] = "" THEN 0
                                     ELSE ParseNat(p[2] \o SubSeq(Zeros, 1, 6 - Len(p[2])))
                            IN IF w = 0 /\ m = 0 /\ sg = -1 THEN Unspec
                               ELSE Ok(<<"flt", sg, w, m>>)
                       ELSE Unspec)
                 ELSE IF MayBeNumber(u) THEN Unspec ELSE Err("cast"))
           ELSE Err("cast")
      [] v[1] \in {"list", "dict", "tuple", "set", "obj", "dt", "dtn", "date", "time",
                   "td", "tz", "zi", "nt", "path", "fset", "deque", "none", "uuid", "cplx"} -> Err("cast")
      [] OTHER -> Unspec
CastStr(v) ==
    CASE v[1] = "str" -> Ok(v)
      [] v[1] = "int" -> Ok(Str(ToString(v[2])))
      [] v[1] = "bigint" -> Ok(Str(v[2]))
      [] v[1] = "bool" -> Ok(Str(IF v[2] THEN "True" ELSE "False"))
      [] v[1] = "flt" -> Ok(IF v[3] = 0 /\ v[4] # 0 /\ v[4] < 100 THEN AnyStr ELSE Str(FltStr(v)))
      [] v[1] \in {"uuid", "dec", "path"} -> Ok(Str(v[2]))
      [] OTHER -> Ok(AnyStr)
CastBool(v) ==
    CASE v[1] = "bool" -> Ok(v)
      [] v[1] = "int" -> Ok(BoolV(v[2] # 0))
      [] v[1] \in {"bigint", "dt", "dtn", "date", "time", "tz", "zi", "uuid", "path"} -> Ok(BoolV(TRUE))
      [] v[1] = "flt" -> Ok(BoolV(v[3] # 0 \/ v[4] # 0))
      [] v[1] = "td" -> Ok(BoolV(v[3] # 0 \/ v[4] # 0))
      [] v[1] = "str" -> Ok(BoolV(v[2] # ""))
      [] v[1] \in {"list", "dict", "tuple", "set", "fset", "deque"} -> Ok(BoolV(v[2] # <<>>))
      [] OTHER -> Unspec
IsInst(v, p) == CASE p = "int" -> v[1] \in {"int", "bigint", "bool"}
                  [] p = "float" -> v[1] \in {"flt", "xflt"}
                  [] p = "str" -> v[1] = "str"
                  [] p = "bool" -> v[1] = "bool"
Cast(v, p) == IF IsInst(v, p) THEN Ok(v)
              ELSE CASE p = "int" -> CastInt(v)
                     [] p = "float" -> CastFloat(v)
                     [] p = "str" -> CastStr(v)
                     [] p = "bool" -> CastBool(v)

\* UUID, Decimal and Path of a string: the normal form, "bad" or "odd".
HexSet == CharsOf("0123456789abcdefABCDEF")
UuidText(s) ==
    IF \A i \in 1..Len(s) : Ch(s, i) \in HexSet \/ Ch(s, i) = "-"
    THEN LET h == Lower(MapChars(LAMBDA c : IF c = "-" THEN "" ELSE c, s, 1)) IN
         IF Len(h) # 32 THEN "bad"
         ELSE SubSeq(h, 1, 8) \o "-" \o SubSeq(h, 9, 12) \o "-" \o SubSeq(h, 13, 16) \o "-"
                \o SubSeq(h, 17, 20) \o "-" \o SubSeq(h, 21, 32)
    ELSE IF Len(s) < 32 THEN "bad" ELSE "odd"
RECURSIVE DropLeadingZeros(_)
DropLeadingZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN DropLeadingZeros(StrTail(s)) ELSE s
DecText(s) ==
    LET u == Unsign(s)  p == Split(u, ".") IN
    IF Loose_(s) THEN "odd"
    ELSE IF Len(p) \in {1, 2} /\ AllDigits(p[1]) /\ (Len(p) = 1 \/ AllDigits(p[2]))
    THEN (IF Len(u) > 20 \/ (Len(p) = 2 /\ Len(p[2]) > 6) THEN "odd"
          ELSE (IF IsNeg(s) THEN "-" ELSE "") \o DropLeadingZeros(p[1])
                 \o (IF Len(p) = 2 THEN "." \o p[2] ELSE ""))
    ELSE IF u = "" THEN "bad"
    ELSE IF Ch(u, 1) \in DigitSet \/ Ch(u, 1) = "." THEN "odd"    \* 1. or .5 or 1e5
    ELSE IF Lower(Ch(u, 1)) \in {"n", "i", "s"} THEN "odd"          \* nan, inf, snan
    ELSE "bad"
PathText(s) ==
    LET parts == SelectSeq(Split(s, "/"), LAMBDA x : x # "" /\ x # ".")
        abs == s # "" /\ Ch(s, 1) = "/"
    IN IF StartsWith(s, "//") THEN "odd"
       ELSE IF parts = <<>> THEN (IF abs THEN "/" ELSE ".")
       ELSE (IF abs THEN "/" ELSE "") \o Join(parts, "/", 1)

\* --------------------------------------------------------- the world ------
Cls(S, n) == S.w.c[n]
IsCls(T) == T[1] = "cls"
KindOf(S, T) == Cls(S, T[2]).k
MroOf(S, n) == {Cls(S, n).mro[i] : i \in 1..Len(Cls(S, n).mro)}
EnumNames(S, n) == {Cls(S, n).en[i][1] : i \in 1..Len(Cls(S, n).en)}
NewTypeOf(S, T) == S.w.n[T[2]]
RECURSIVE Unwrap(_, _)
Unwrap(S, T) == IF T[1] = "newtype" THEN Unwrap(S, NewTypeOf(S, T)) ELSE T

ContTags == {"list", "tuple", "set", "fset", "deque"}
(* type(v)                                                                   *)
TypeOf(v) ==
    CASE v[1] = "none" -> NT
      [] v[1] \in {"int", "bigint"} -> <<"int">>
      [] v[1] \in {"flt", "xflt"} -> <<"float">>
      [] v[1] \in {"obj", "nt", "enum"} -> <<"cls", v[2]>>
      [] v[1] \in {"dt", "dtn"} -> <<"datetime">>
      [] v[1] = "td" -> <<"timedelta">>
      [] v[1] = "tz" -> <<"timezone">>
      [] v[1] = "zi" -> <<"zoneinfo">>
      [] v[1] = "dec" -> <<"decimal">>
      [] v[1] = "cplx" -> <<"complex">>
      [] v[1] = "fset" -> <<"frozenset">>
      [] v[1] = "ddict" -> <<"defaultdict">>
      [] v[1] = "odict" -> <<"odict">>
      [] OTHER -> <<v[1]>>

(* The name under which a (de)serializer for T is registered.                *)
TName(T) == CASE T[1] \in {"cls", "newtype"} -> T[2]
              [] Len(T) > 1 -> "typing." \o T[1]
              [] OTHER -> T[1]

IterNames == {"list", "List", "tuple", "Tuple", "tuplen", "tuplee", "set", "frozenset",
              "deque", "iter", "seq", "str"}
MapNames == {"dict", "Dict", "mapping", "defaultdict", "odict"}
NakedName(T) == CASE T[1] \in {"tuplen", "tuplee", "Tuple"} -> "tuple"
                  [] T[1] = "List" -> "list"
                  [] T[1] = "Dict" -> "dict"
                  [] OTHER -> T[1]
(* The names of the superclasses (and ABCs) of T, T included.                *)
Supers(S, T) ==
    CASE IsCls(T) ->
           MroOf(S, T[2]) \cup {"object"}
             \cup (IF KindOf(S, T) = "enum"
                   THEN {"Enum"} \cup (IF Cls(S, T[2]).base = "" THEN {}
                                       ELSE {Cls(S, T[2]).base}) ELSE {})
             \cup (IF KindOf(S, T) = "nt" THEN {"tuple", "Iterable"} ELSE {})
      [] T[1] \in MapNames -> {NakedName(T), "Mapping", "Iterable", "object"}
                                \cup (IF T[1] = "mapping" THEN {} ELSE {"dict"})
      [] T[1] \in IterNames -> {NakedName(T), "Iterable", "object"}
      [] T[1] = "bool" -> {"bool", "int", "object"}
      [] T[1] = "datetime" -> {"datetime", "date", "object"}
      [] T[1] = "any" -> {"object"}
      [] T[1] \in {"union", "newtype", "unk"} -> {}
      [] OTHER -> {T[1], "object"}

\* ------------------------------------------- dispatch: which function -----
ExactSer == {"tuple", "Tuple", "typing.tuplen", "typing.tuplee", "complex", "date", "datetime",
             "time", "timezone", "timedelta", "str", "int", "float", "bool", "nonetype",
             "list", "List", "typing.list", "object", "uuid", "decimal", "typing.union",
             "zoneinfo", "typing.iter"}
ExactDes == {"tuple", "Tuple", "typing.tuplen", "typing.tuplee", "complex", "date", "datetime",
             "time", "timezone", "timedelta", "str", "int", "float", "bool", "nonetype",
             "list", "List", "typing.list", "object", "uuid", "decimal", "typing.union",
             "zoneinfo", "typing.iter", "dict", "Dict", "typing.dict", "typing.mapping",
             "typing.defaultdict"}

DefaultSer(S, T) ==
    CASE T[1] \in {"int", "float", "str", "bool", "nonetype"} -> "prim"
      [] IsCls(T) -> (CASE KindOf(S, T) = "enum" -> "enum"
                        [] KindOf(S, T) = "nt" -> "tuple"
                        [] OTHER -> "obj")
      [] T[1] \in {"list", "List"} -> "list"
      [] T[1] \in {"tuple", "Tuple", "tuplen", "tuplee"} -> "tuple"
      [] T[1] \in {"set", "frozenset", "deque", "iter", "seq"} -> "iter"
      [] T[1] \in MapNames -> "dict"
      [] T[1] \in {"any", "object"} -> "obj"
      [] T[1] \in {"union", "datetime", "date", "time", "timedelta", "timezone", "zoneinfo",
                   "uuid", "decimal", "complex", "path"} -> T[1]
      [] OTHER -> "none"
DefaultDes(S, T) ==
    CASE T[1] \in {"int", "float", "bool"} -> "prim"
      [] T[1] = "str" -> "str"
      [] T[1] = "nonetype" -> "nonetype"
      [] T[1] \in {"dict", "Dict", "mapping", "odict"} -> "map"
      [] T[1] = "defaultdict" -> IF Len(T) = 3 THEN "defaultdict" ELSE "map"
      [] OTHER -> DefaultSer(S, T)

RECURSIVE FirstIn(_, _, _)
FirstIn(ord, names, i) == IF i > Len(ord) THEN 0
                          ELSE IF ord[i] \in names THEN i ELSE FirstIn(ord, names, i + 1)

(* The custom function for T in the registry r, or "" if there is none.      *)
CustomFor(S, r, exact, T) ==
    LET nm == TName(T) IN
    IF nm \in DOMAIN r.map THEN r.map[nm]
    ELSE IF nm \in exact THEN ""
    ELSE LET i == FirstIn(r.hi, Supers(S, T), 1) IN
         IF i = 0 THEN "" ELSE r.map[r.hi[i]]

(* [c: custom?, fn: function, T: type, nw: was a NewType unwrapped?]         *)
RECURSIVE GetSer(_, _, _, _)
GetSer(S, f, T, nw) ==
    IF T[1] = "newtype" /\ T[2] \notin DOMAIN S.f[f].ser.map
    THEN GetSer(S, f, NewTypeOf(S, T), TRUE)
    ELSE LET c == CustomFor(S, S.f[f].ser, ExactSer, T) IN
         [c |-> c # "", fn |-> IF c # "" THEN c ELSE DefaultSer(S, T), T |-> T, nw |-> nw]
RECURSIVE GetDes(_, _, _, _)
GetDes(S, f, T, nw) ==
    IF T[1] = "newtype" /\ T[2] \notin DOMAIN S.f[f].des.map
    THEN GetDes(S, f, NewTypeOf(S, T), TRUE)
    ELSE LET c == CustomFor(S, S.f[f].des, ExactDes, T) IN
         [c |-> c # "", fn |-> IF c # "" THEN c ELSE DefaultDes(S, T), T |-> T, nw |-> nw]
RECURSIVE GetVal(_, _, _)
GetVal(S, f, T) ==
    LET c == CustomFor(S, S.f[f].val, {}, T) IN
    IF c = "" /\ T[1] = "newtype" THEN GetVal(S, f, NewTypeOf(S, T)) ELSE c

NewReg == [ser |-> [hi |-> <<>>, map |-> EmptyFcn],
           des |-> [hi |-> <<>>, map |-> EmptyFcn],
           val |-> [hi |-> <<>>, map |-> EmptyFcn],
           sup |-> FALSE, codes |-> {}]

FnOf(S, fn) == S.w.fn[fn]      \* the behaviour of a custom function

\* ------------------------------------------------------------ options -----
K0 == [strict |-> FALSE, nulls |-> FALSE, priv |-> FALSE, props |-> FALSE, cvars |-> FALSE,
       attrs |-> <<>>, kt |-> "", verb |-> {}, enumname |-> "default", usec |-> FALSE,
       store |-> FALSE, fork |-> 1, types |-> <<>>, xtra |-> NONE,
       \* load only:
       inferred |-> FALSE, hints |-> <<>>, getters |-> <<>>, warn |-> FALSE, tasks |-> 1]

Warned(S, f, code) == IF S.f[f].sup \/ code \in S.f[f].codes THEN <<>> ELSE <<code>>

\* ------------------------------------------------- qualified names --------
QName(S, n) == Cls(S, n).mod \o "." \o n
TypingName(T) == AnyStr
ClsInfoName(S, v) ==
    CASE v[1] \in {"obj", "nt", "enum"} -> Str(QName(S, v[2]))
      [] v[1] = "tz" -> Str("datetime.timezone")
      [] v[1] = "zi" -> Str("zoneinfo.ZoneInfo")
      [] v[1] = "cplx" -> Str("complex")
      [] OTHER -> AnyStr

JsonKeyTags == {"str", "int", "bigint", "flt", "xflt", "bool", "none", "anystr"}

\* ================================================================= DUMP ===
Elems(v) == CASE v[1] \in ContTags -> v[2]
              [] v[1] \in {"dict", "ddict", "odict"} -> [i \in 1..Len(v[2]) |-> v[2][i][1]]
              [] v[1] = "str" -> [i \in 1..Len(v[2]) |-> Str(Ch(v[2], i))]
              [] v[1] = "nt" -> v[3]
              [] OTHER -> <<>>
IsIterable(v) == v[1] \in ContTags \cup {"dict", "ddict", "odict", "str", "nt"}

DictTags == {"dict", "ddict", "odict"}
(* isinstance(v, T) for the purposes of the object serializer                *)
InstOf(S, v, T) ==
    CASE IsCls(T) -> v[1] \in {"obj", "nt", "enum"} /\ T[2] \in MroOf(S, v[2])
      [] T[1] \in {"object", "any"} -> TRUE
      [] OTHER -> FALSE

RECURSIVE DumpV(_, _, _, _), ApplySer(_, _, _, _, _), DumpEach(_, _, _, _, _, _),
          SerList(_, _, _, _), SerIter(_, _, _, _), SerTuple(_, _, _, _), SerFields(_, _, _, _, _, _),
          SerDict(_, _, _, _), SerPairs(_, _, _, _, _, _), SerUnion(_, _, _, _, _, _),
          SerObj(_, _, _, _), SerAttrs(_, _, _, _, _, _), CustomSer(_, _, _, _, _)

AsSerErr(r) == IF IsErr(r) THEN [r EXCEPT !.k = "SerializationError"] ELSE r

DumpV(S, v, T, k) ==
    LET g == GetSer(S, k.fork, IF T = NOT THEN TypeOf(v) ELSE T, FALSE)
    IN AsSerErr(ApplySer(S, g, v, IF g.nw THEN g.T ELSE T, k))

ApplySer(S, g, v, T, k) ==
    IF v[1] = "weird" THEN Unspec
    ELSE IF g.c THEN CustomSer(S, FnOf(S, g.fn), v, T, k)
    ELSE CASE g.fn = "prim" ->
                (IF T = NOT \/ v = NONE \/ (T = NT /\ v = NONE) THEN Ok(v)
                 ELSE IF T = NT THEN Err("cast")
                 ELSE IF v[1] = "enum" THEN Unspec
                 \* str() of a JsonSerializable dumps it, with whatever was registered
                 ELSE IF T[1] = "str" /\ v[1] = "obj" /\ DOMAIN S.w.fn # {}
                         /\ \E m \in ToSet(Cls(S, v[2]).mro) :
                               m \in DOMAIN S.w.c /\ S.w.c[m].k = "jsonser" THEN Unspec
                 ELSE Cast(v, T[1]))
           [] g.fn = "list" -> SerList(S, v, T, [k EXCEPT !.store = FALSE])
           [] g.fn = "iter" -> SerIter(S, v, T, [k EXCEPT !.store = FALSE])
           [] g.fn = "tuple" -> SerTuple(S, v, T, [k EXCEPT !.store = FALSE])
           [] g.fn = "dict" -> SerDict(S, v, T, [k EXCEPT !.store = FALSE])
           [] g.fn = "union" ->
                (IF v = NONE /\ \E i \in 1..Len(T[2]) : T[2][i] = NT THEN Ok(v)
                 ELSE SerUnion(S, v, T[2], k, 1, <<>>))
           [] g.fn = "enum" ->
                (IF v[1] = "enum"
                 THEN Ok(IF k.enumname = "no" THEN GetP(Cls(S, v[2]).en, v[3]) ELSE Str(v[3]))
                 ELSE IF v[1] \in {"obj", "path", "nt"} THEN Unspec ELSE Err("attr"))
           [] g.fn = "datetime" ->
                (IF v[1] = "dt" THEN Ok(Str(FmtDT(v, k.usec)))
                 ELSE IF v[1] = "dtn"
                 THEN OkW(Str(FmtNaive(v, k.usec, S.w.localoff)),
                          Warned(S, k.fork, "datetime-without-tz"))
                 ELSE IF v[1] \in {"date", "time"} THEN Unspec ELSE Err("attr"))
           [] g.fn = "date" ->
                (IF v[1] = "date" THEN Ok(Str(FmtDate(v[2], v[3], v[4])))
                 ELSE IF v[1] \in {"dt", "dtn", "time"} THEN Unspec ELSE Err("attr"))
           [] g.fn = "time" ->
                (IF v[1] = "time" THEN Ok(Str(FmtTime(v[2], v[3], v[4], v[5], FALSE)))
                 ELSE IF v[1] \in {"dt", "dtn", "date"} THEN Unspec ELSE Err("attr"))
           [] g.fn = "timedelta" ->
                (IF v[1] = "td" THEN Ok(<<"flt", v[2], v[3], v[4]>>) ELSE Err("attr"))
           [] g.fn = "timezone" ->
                (IF v[1] = "tz"
                 THEN LET r == DumpV(S, <<"td", IF v[2] < 0 THEN -1 ELSE 1, AbsInt(v[2]), 0>>, NOT, k) IN
                      IF ~IsOk(r) THEN r
                      ELSE Ok(<<"dict", << <<Str("name"), Str(v[3])>>, <<Str("offset"), r.v>> >> >>)
                 ELSE IF v[1] = "zi" THEN Unspec ELSE Err("attr"))
           [] g.fn = "zoneinfo" ->
                (IF v[1] = "zi" THEN Ok(<<"dict", << <<Str("key"), Str(v[2])>> >> >>)
                 ELSE IF v[1] = "obj" THEN Unspec ELSE Err("attr"))
           [] g.fn \in {"uuid", "decimal"} -> CastStr(v)
           [] g.fn = "complex" ->
                (CASE v[1] = "cplx" -> Ok(<<"dict", << <<Str("real"), v[2]>>, <<Str("imag"), v[3]>> >> >>)
                   [] v[1] = "int" -> Ok(<<"dict", << <<Str("real"), v>>, <<Str("imag"), IntV(0)>> >> >>)
                   [] v[1] = "flt" -> Ok(<<"dict", << <<Str("real"), v>>, <<Str("imag"), FltOfInt(0)>> >> >>)
                   [] v[1] \in {"bool", "bigint", "xflt", "dec", "enum", "obj"} -> Unspec
                   [] OTHER -> Err("attr"))
           [] g.fn = "path" -> (IF v[1] = "path" THEN Ok(Str(v[2]))
                                ELSE IF v[1] = "obj" THEN Unspec ELSE Err("attr"))
           [] g.fn = "obj" -> SerObj(S, v, T, k)
           [] OTHER -> Unspec

(* Dump the values vs[i] as Ts[i], stop at the first failure.                *)
DumpEach(S, vs, Ts, k, i, acc) ==
    IF i > Len(vs) THEN OkW(<<"list", acc.v>>, acc.w)
    ELSE LET r == DumpV(S, vs[i], Ts[i], k) IN
         IF ~IsOk(r) THEN AddW(r, acc.w)
         ELSE DumpEach(S, vs, Ts, k, i + 1, [v |-> Append(acc.v, r.v), w |-> acc.w \o r.w])
Acc0 == [v |-> <<>>, w |-> <<>>]
Const(T, n) == [i \in 1..n |-> T]
HasArgs(T) == Len(T) > 1 /\ T[1] \notin {"cls", "newtype", "union", "name"}

SerList(S, v, T, k) ==
    IF v[1] = "none" \/ (v[1] \in {"int", "flt", "bool", "str"} /\ ~CastBool(v).v[2])
    THEN Ok(<<"list", <<>>>>)
    ELSE IF ~IsIterable(v) THEN (IF v[1] \in {"td", "cplx", "enum", "dec"} THEN Unspec ELSE Err("type"))
    ELSE LET es == Elems(v)
             Wrap(r) == IF IsOk(r) /\ v[1] \in {"set", "fset"} /\ Len(es) > 1
                        THEN [r EXCEPT !.v = <<"ulist", r.v[2]>>] ELSE r
         IN IF es = <<>> THEN Ok(<<"list", <<>>>>)
            ELSE IF HasArgs(T)
            THEN Wrap(DumpEach(S, es, Const(T[2], Len(es)), k, 1, Acc0))
            ELSE IF k.strict   \* the type of the first element counts
            THEN (IF v[1] \in {"set", "fset", "dict", "ddict", "odict"} THEN Unspec
                  ELSE DumpEach(S, es, Const(TypeOf(es[1]), Len(es)), k, 1, Acc0))
            ELSE Wrap(DumpEach(S, es, Const(NOT, Len(es)), k, 1, Acc0))

SerIter(S, v, T, k) ==
    IF ~IsIterable(v) THEN (IF v[1] \in {"enum"} THEN Unspec ELSE Err("type"))
    ELSE LET es == Elems(v)  n == Len(es)
             Wrap(r) == IF IsOk(r) /\ v[1] \in {"set", "fset"} /\ n > 1
                        THEN [r EXCEPT !.v = <<"ulist", r.v[2]>>] ELSE r
         IN IF ~k.strict THEN Wrap(DumpEach(S, es, Const(NOT, n), k, 1, Acc0))
            ELSE IF T = NOT \/ ~HasArgs(T)
            THEN (IF T # NOT /\ v[1] # "tuple" THEN Wrap(DumpEach(S, es, Const(NOT, n), k, 1, Acc0))
                  ELSE IF T # NOT THEN DumpEach(S, es, Const(NOT, n), k, 1, Acc0)
                  ELSE IF v[1] \in {"set", "fset"}
                  THEN Wrap(DumpEach(S, es, Const(NOT, n), k, 1, Acc0))
                  ELSE IF n = 0 THEN Ok(<<"list", <<>>>>)
                  ELSE IF v[1] = "tuple" /\ es[1][1] \in {"int", "str", "bool", "flt", "obj"}
                  THEN DumpEach(S, es, Const(TypeOf(es[1]), n), k, 1, Acc0)
                  ELSE Unspec)
            ELSE IF T[1] = "tuplen"
            THEN (IF Len(T[2]) = 0 THEN Wrap(DumpEach(S, es, Const(NOT, n), k, 1, Acc0))
                  ELSE IF Len(T[2]) = 1 THEN Wrap(DumpEach(S, es, Const(T[2][1], n), k, 1, Acc0))
                  ELSE IF Len(T[2]) # n THEN Err("args")
                  ELSE IF v[1] \in {"set", "fset"} THEN Unspec
                  ELSE DumpEach(S, es, T[2], k, 1, Acc0))
            ELSE IF Len(T) = 2 THEN Wrap(DumpEach(S, es, Const(T[2], n), k, 1, Acc0))
            ELSE Unspec

SerTuple(S, v, T, k) ==
    IF v[1] = "nt" THEN SerFields(S, v, Cls(S, v[2]).ps, k, 1, Acc0)
    ELSE SerIter(S, v, T, k)
SerFields(S, v, ps, k, i, acc) ==
    IF i > Len(ps) THEN OkW(<<"dict", acc.v>>, acc.w)
    ELSE LET r == DumpV(S, v[3][i], NOT, k) IN
         IF ~IsOk(r) THEN AddW(r, acc.w)
         ELSE SerFields(S, v, ps, k, i + 1,
                        [v |-> Append(acc.v, <<Str(ps[i][1]), r.v>>), w |-> acc.w \o r.w])

SerDict(S, v, T, k) ==
    IF v[1] \notin DictTags
    THEN (IF v[1] \in {"list", "tuple", "set", "fset", "deque", "str"} /\ Elems(v) = <<>>
          THEN Ok(<<"dict", <<>>>>)
          ELSE IF v[1] \in {"list", "tuple", "nt", "deque", "str"} THEN Unspec ELSE Err("type"))
    ELSE SerPairs(S, v[2], [k EXCEPT !.types = <<>>], k.types, 1, [p |-> <<>>, h |-> <<>>, w |-> <<>>])
SerPairs(S, ps, k, types, i, acc) ==
    IF i > Len(ps)
    THEN OkW(IF acc.h = <<>> THEN <<"dict", acc.p>> ELSE <<"hdict", acc.p, acc.h>>, acc.w)
    ELSE LET key == ps[i][1]
             T == IF key[1] = "str" /\ HasP(types, key[2]) THEN GetP(types, key[2]) ELSE NOT
             r == DumpV(S, ps[i][2], T, k)
         IN IF ~IsOk(r) THEN AddW(r, acc.w)
            ELSE IF k.nulls /\ r.v = NONE
            THEN SerPairs(S, ps, k, types, i + 1, [acc EXCEPT !.w = @ \o r.w])
            ELSE IF key[1] \in JsonKeyTags
            THEN LET kk == IF key[1] = "str" THEN Str(KT(k.kt, key[2])) ELSE key IN
                 SerPairs(S, ps, k, types, i + 1,
                          [acc EXCEPT !.p = PutP(@, kk, r.v), !.w = @ \o r.w])
            ELSE LET d == DumpV(S, key, NOT, k) IN
                 IF ~IsOk(d) THEN AddW(d, acc.w \o r.w)
                 ELSE IF d.v[1] \in JsonKeyTags
                 THEN LET kk == IF d.v[1] = "str" THEN Str(KT(k.kt, d.v[2])) ELSE d.v IN
                      SerPairs(S, ps, k, types, i + 1,
                               [acc EXCEPT !.p = PutP(@, kk, r.v), !.w = @ \o r.w \o d.w])
                 ELSE SerPairs(S, ps, k, types, i + 1,
                               [acc EXCEPT !.h = Append(@, <<d.v, r.v>>), !.w = @ \o r.w \o d.w])

SerUnion(S, v, Ts, k, i, w) ==
    IF i > Len(Ts) THEN AddW(Err("union"), w)
    ELSE LET r == DumpV(S, v, Ts[i], k) IN
         IF IsErr(r) THEN SerUnion(S, v, Ts, k, i + 1, w \o r.w) ELSE AddW(r, w)

\* ------------------------------------------------------ objects (dump) ----
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
NamesOf(ps) == {ps[i][1] : i \in 1..Len(ps)}

(* The attributes that dump looks at: <<name, type hint>>.                   *)
HintFor(C, a) == IF C.slots THEN NOT
                 ELSE IF a \in NamesOf(C.pr) \/ a \in NamesOf(C.cv) \/ InSeq(a, C.slotvars) THEN NOT
                 ELSE IF HasP(C.an, a) THEN GetP(C.an, a) ELSE NOT
Keeps(C, a, k) ==
    /\ ~StartsWith(a, "__")
    /\ ~(k.priv /\ StartsWith(a, "_"))
    /\ ~(k.props /\ a \in NamesOf(C.pr))
    /\ ~(k.cvars /\ (a \in NamesOf(C.cv) \/ InSeq(a, C.slotvars)))
    /\ ~InSeq(a, k.attrs)
    /\ ~(a = "json" /\ a \in NamesOf(C.pr))     \* (as it may well dump the object)
RECURSIVE Uniq(_, _, _)
Uniq(s, i, acc) == IF i > Len(s) THEN acc
                   ELSE Uniq(s, i + 1, IF InSeq(s[i], acc) THEN acc ELSE Append(acc, s[i]))
Names(ps) == [i \in 1..Len(ps) |-> ps[i][1]]
RawAttrs(C, v) == Uniq(Names(v[3]) \o Names(C.pr) \o Names(C.cv), 1, <<>>)
ClsAttrs(C) == Uniq(IF C.slots THEN C.slotseq \o Names(C.pr) \o Names(C.cv)
                    ELSE Names(C.an) \o Names(C.pr) \o Names(C.cv) \o C.slotvars, 1, <<>>)

RECURSIVE AttrVal(_, _, _)
AttrVal(C, v, a) ==     \* <<"missing">> if there is no such attribute
    IF a \in NamesOf(C.pr)
    THEN LET p == C.pr[PairIdx(C.pr, a, 1)] IN
         IF p[3][1] = "const" THEN p[3][2]
         ELSE IF HasP(v[3], p[3][2]) THEN GetP(v[3], p[3][2]) ELSE <<"missing">>
    ELSE IF HasP(v[3], a) THEN GetP(v[3], a)
    ELSE IF a \in NamesOf(C.cv) THEN GetP(C.cv, a) ELSE <<"missing">>

(* Collect the class names under the paths of all nested objects and remove   *)
(* the auxiliary -cls entries (the result is <<pairs, classes>>).             *)
CLS == Str("-cls")
META == Str("-meta")
RECURSIVE StripCls(_, _, _)
RECURSIVE StripPairs(_, _, _, _, _)
StripCls(ps, prefix, acc) == StripPairs(DelP(ps, CLS), prefix, 1, <<>>, acc)
StripPairs(ps, prefix, i, out, acc) ==
    IF i > Len(ps) THEN <<out, acc>>
    ELSE LET p == ps[i] IN
         IF p[2][1] = "dict" /\ HasP(p[2][2], CLS) /\ p[1][1] = "str"
         THEN LET r == StripCls(p[2][2], prefix \o p[1][2] \o "/", acc)
                  c == GetP(p[2][2], CLS)
              IN StripPairs(ps, prefix, i + 1, Append(out, <<p[1], <<"dict", r[1]>>>>),
                            PutP(r[2], Str(prefix \o p[1][2]), c))
         ELSE IF p[2][1] = "hdict" /\ HasP(p[2][2], CLS) /\ p[1][1] = "str"
         THEN LET r == StripCls(p[2][2], prefix \o p[1][2] \o "/", acc)
                  c == GetP(p[2][2], CLS)
              IN StripPairs(ps, prefix, i + 1, Append(out, <<p[1], <<"hdict", r[1], p[2][3]>>>>),
                            PutP(r[2], Str(prefix \o p[1][2]), c))
         ELSE StripPairs(ps, prefix, i + 1, Append(out, p), acc)

WithMeta(S, ps, cname, verb) ==
    IF verb = {} THEN ps
    ELSE LET r == IF "class" \in verb THEN StripCls(ps, "/", <<>>) ELSE <<ps, <<>>>>
             classes == PutP(r[2], Str("/"), Str(cname))
             meta == (IF "class" \in verb
                      THEN << <<Str("classes"), <<"dict", classes>>>> >> ELSE <<>>)
                     \o (IF "time" \in verb THEN << <<Str("dump_time"), AnyStr>> >> ELSE <<>>)
         IN PutP(r[1], META, <<"dict", meta>>)

StoreCls(S, r, v) ==      \* _store_cls_info
    IF r[1] = "dict" THEN <<"dict", PutP(r[2], CLS, ClsInfoName(S, v))>>
    ELSE IF r[1] = "hdict" THEN <<"hdict", PutP(r[2], CLS, ClsInfoName(S, v)), r[3]>>
    ELSE r

SerObj(S, v, T, k) ==
    LET anyT == T[1] \in {"any", "object"}
        own == GetSer(S, k.fork, TypeOf(v), FALSE)
        redirect == IF anyT THEN own.c \/ own.fn # "obj"
                    ELSE T # NOT /\ ~InstOf(S, v, T) /\ ~own.c /\ own.fn # "obj"
    IN IF redirect THEN ApplySer(S, own, v, NOT, k)
       ELSE IF v[1] # "obj" THEN Unspec
       ELSE LET useCls == T # NOT /\ ~anyT /\ k.strict
                C0 == Cls(S, v[2])
                n == IF useCls THEN T[2] ELSE v[2]
                C == Cls(S, n)
                raw == IF useCls THEN ClsAttrs(C) ELSE RawAttrs(C0, v)
                as == SelectSeq(raw, LAMBDA a : Keeps(C, a, k))
                sc == "class" \in k.verb
                r == SerAttrs(S, v, [cls |-> C, as |-> as, store |-> sc, known |-> useCls /\ InstOf(S, v, T)], k, 1, Acc0)
            IN IF ~IsOk(r) THEN r
               ELSE IF k.store THEN OkW(<<"dict", r.v>>, r.w)
               ELSE OkW(<<"dict", WithMeta(S, r.v, QName(S, n), k.verb)>>, r.w)

SerAttrs(S, v, c, k, i, acc) ==
    IF i > Len(c.as) THEN OkW(acc.v, acc.w)
    ELSE LET a == c.as[i]
             av == AttrVal(Cls(S, v[2]), v, a)
             h == HintFor(c.cls, a)
         IN IF av[1] = "missing"     \* a parameter that is not stored under its name
            THEN (IF c.known /\ HasP(c.cls.ps, a) THEN SerAttrs(S, v, c, k, i + 1, acc) ELSE Unspec)
            ELSE LET g == GetSer(S, k.fork, IF h = NOT THEN TypeOf(av) ELSE h, FALSE)
                     r == ApplySer(S, g, av, IF g.nw THEN g.T ELSE h, [k EXCEPT !.store = c.store])
                     key0 == IF c.cls.k = "attrs" /\ ~k.priv THEN StripUnder(a) ELSE a
                     key == KT(k.kt, key0)
                 IN IF r.t = "unspec" THEN r
                    ELSE IF IsErr(r)
                    THEN (IF k.strict THEN AddW(AsSerErr(r), acc.w \o r.w)
                          ELSE SerAttrs(S, v, c, k, i + 1,
                                 [acc EXCEPT !.w = @ \o r.w \o Warned(S, k.fork, "attribute-not-serialized")]))
                    ELSE IF k.nulls /\ r.v = NONE
                    THEN SerAttrs(S, v, c, k, i + 1, [acc EXCEPT !.w = @ \o r.w])
                    ELSE LET d == IF c.store THEN StoreCls(S, r.v, av) ELSE r.v IN
                         SerAttrs(S, v, c, k, i + 1,
                                  [v |-> PutP(acc.v, Str(key), d), w |-> acc.w \o r.w])

\* ----------------------------------------------- custom serializers -------
TypeName(T) == IF T = NOT THEN "" ELSE TName(T)
RawOf(v) == IF v[1] \in {"int", "str", "bool", "flt", "none"} THEN v ELSE Str(v[1])
CustomSer(S, b, v, T, k) ==
    CASE b[1] = "const" -> Ok(b[2])
      [] b[1] = "tag" ->
           Ok(<<"dict", << <<Str("f"), Str(b[2])>>, <<Str("c"), Str(TypeName(T))>>,
                           <<Str("v"), RawOf(v)>>, <<Str("s"), BoolV(k.strict)>>,
                           <<Str("k"), IntV(k.fork)>>, <<Str("x"), k.xtra>> >> >>)
      [] b[1] = "dele" ->   \* dump the attribute b[3] on the side
           (IF v[1] # "obj" \/ ~HasP(v[3], b[3]) THEN Err("attr")
            ELSE LET r == DumpV(S, GetP(v[3], b[3]), NOT, k) IN
                 IF ~IsOk(r) THEN r
                 ELSE OkW(<<"dict", << <<Str("f"), Str(b[2])>>, <<Str("d"), r.v>> >> >>, r.w))
      [] b[1] = "nest" ->   \* the same, with options of its own
           (IF v[1] # "obj" \/ ~HasP(v[3], b[3]) THEN Err("attr")
            ELSE LET r == DumpV(S, GetP(v[3], b[3]), NOT, KOf(b[4])) IN
                 IF ~IsOk(r) THEN r
                 ELSE OkW(<<"dict", << <<Str("f"), Str(b[2])>>, <<Str("d"), r.v>> >> >>, r.w))
      [] b[1] = "str" -> Ok(Str(b[2]))
      [] b[1] = "super" -> SerObj(S, v, T, k)
      [] b[1] = "raise" -> [Err("custom") EXCEPT !.m = "custom failure"]
      [] OTHER -> Unspec

\* ================================================================= LOAD ===
CanNone(S, T0) ==
    LET T == Unwrap(S, T0) IN
    \/ T \in {<<"any">>, <<"object">>, NOT, NT}
    \/ T[1] = "union" /\ \E i \in 1..Len(T[2]) : T[2][i] = NT

(* type(j) of a JSON value                                                   *)
NatType(j) == TypeOf(j)
ValidTags == {"str", "int", "bigint", "flt", "xflt", "bool", "list", "tuple", "set", "dict", "none"}

BuiltinName == [int |-> <<"int">>, str |-> <<"str">>, float |-> <<"float">>, bool |-> <<"bool">>,
                list |-> <<"list">>, dict |-> <<"dict">>, tuple |-> <<"tuple">>, set |-> <<"set">>,
                complex |-> <<"complex">>, object |-> <<"object">>]

(* A class name in a -meta: <<"ok", T>>, <<"unknown">> or <<"odd">>.          *)
ResolveName(S, name) ==
    IF name \in DOMAIN BuiltinName THEN <<"ok", BuiltinName[name]>>
    ELSE IF name = "NoneType" THEN <<"ok", NT>>
    ELSE LET qs == {n \in DOMAIN S.w.c : QName(S, n) = name /\ Cls(S, n).imp} IN
         IF qs # {} THEN <<"ok", <<"cls", CHOOSE n \in qs : TRUE>>>>
         ELSE IF HasP(S.w.names, name) THEN <<"ok", GetP(S.w.names, name)>>
         ELSE IF name \in DOMAIN S.ann THEN <<"ok", S.ann[name]>>
         \* dumping an object announces its class as well
         ELSE IF InSeq(name, S.w.odd) \/ (S.seen /\ \E n \in DOMAIN S.w.c : QName(S, n) = name)
         THEN <<"odd">>
         ELSE <<"unknown">>

Prec(T, Tm, Tn, inferred) ==
    LET ord == IF inferred THEN <<Tm, T, Tn>> ELSE <<T, Tm, Tn>>
        good == {i \in 1..3 : ord[i] # NOT /\ ord[i] # <<"object">>}
    IN IF good = {} THEN NOT ELSE ord[CHOOSE i \in good : \A j \in good : i <= j]

(* Hints: <<path, class name>>; those below the key become relative to it.    *)
NestedHints(h, key) ==
    LET root == "/" \o key
        sel == SelectSeq(h, LAMBDA p : p[1] = root \/ StartsWith(p[1], root \o "/"))
    IN [i \in 1..Len(sel) |->
          <<IF sel[i][1] = root THEN "/" ELSE DropFrom(sel[i][1], Len(root) + 1), sel[i][2]>>]

(* The -meta of j: [ok, cls, hints]                                           *)
PairsToHints(ps) == [i \in 1..Len(ps) |->
                       <<IF ps[i][1][1] = "str" THEN ps[i][1][2] ELSE "?", ps[i][2]>>]
MetaOf(S, j) ==
    IF j[1] # "dict" \/ ~HasP(j[2], META) THEN [t |-> "ok", T |-> NOT, h |-> <<>>]
    ELSE LET m == GetP(j[2], META) IN
         IF m[1] # "dict" THEN [t |-> "err", k |-> "DeserializationError"]
         ELSE IF ~HasP(m[2], Str("classes")) THEN [t |-> "ok", T |-> NOT, h |-> <<>>]
         ELSE LET c == GetP(m[2], Str("classes")) IN
              IF c[1] # "dict" THEN [t |-> "err", k |-> "DeserializationError"]
              ELSE IF ~HasP(c[2], Str("/")) THEN [t |-> "ok", T |-> NOT, h |-> PairsToHints(c[2])]
              ELSE LET n == GetP(c[2], Str("/")) IN
                   IF n[1] # "str" THEN [t |-> "err", k |-> "DeserializationError"]
                   ELSE LET r == ResolveName(S, n[2]) IN
                        IF r[1] = "ok" THEN [t |-> "ok", T |-> r[2], h |-> PairsToHints(c[2])]
                        ELSE IF r[1] = "odd" THEN [t |-> "odd"]
                        ELSE [t |-> "err", k |-> "UnknownClassError"]

RECURSIVE LoadV(_, _, _, _), ApplyDes(_, _, _, _, _), LoadEach(_, _, _, _, _, _),
          DesList(_, _, _, _), DesListEach(_, _, _, _, _, _, _), DesTuple(_, _, _, _),
          DesNT(_, _, _, _), DesNTFields(_, _, _, _, _, _, _), DesUnion(_, _, _, _, _),
          DesMap(_, _, _, _), DesHashed(_, _, _, _, _, _), DesPairs(_, _, _, _, _, _, _),
          DesStr(_, _, _, _), DesObj(_, _, _, _), DesCtor(_, _, _, _, _, _, _),
          DesRest(_, _, _, _, _, _, _), SetGetters(_, _, _, _, _, _), CustomDes(_, _, _, _, _), DesEnum(_, _, _, _)

\* --- validators
ObjAttr(S, v, a) ==
    IF v[1] = "obj" /\ HasP(v[3], a) THEN GetP(v[3], a)
    ELSE IF v[1] = "nt" /\ \E i \in 1..Len(Cls(S, v[2]).ps) : Cls(S, v[2]).ps[i][1] = a
    THEN v[3][CHOOSE i \in 1..Len(Cls(S, v[2]).ps) : Cls(S, v[2]).ps[i][1] = a]
    ELSE <<"missing">>
RunVal(S, b, v) ==      \* "pass", or the failure message ("?": any message)
    CASE b[1] = "true" -> "pass"
      [] b[1] \in {"false", "noneret"} -> "Validation failed."
      [] b[1] = "raise" -> b[2]
      [] b[1] = "raise0" -> "Validation failed."
      [] b[1] = "min" -> (IF v[1] = "int" THEN (IF v[2] >= b[2] THEN "pass" ELSE "Validation failed.")
                          ELSE IF v[1] \in {"bool", "flt", "bigint", "xflt", "enum"} THEN "?odd" ELSE "?")
      [] b[1] = "attrmin" -> (LET x == ObjAttr(S, v, b[2]) IN
                              IF x[1] = "int" THEN (IF x[2] >= b[3] THEN "pass" ELSE "Validation failed.")
                              ELSE IF x[1] \in {"bool", "flt", "bigint", "xflt", "enum"} THEN "?odd" ELSE "?")
      [] b[1] = "inst" -> (IF InstOf(S, v, <<"cls", b[2]>>) THEN "pass" ELSE "Validation failed.")
      [] b[1] = "tag" -> (IF v[1] = b[2] \/ (v[1] = "anystr" /\ b[2] = "str") THEN "pass"
                          ELSE IF v[1] = "unk" THEN "?odd" ELSE "Validation failed.")
      [] OTHER -> "?odd"
Validate(S, f, v, T, r) ==     \* r if v passes
    LET c == GetVal(S, f, T) IN
    IF c = "" THEN r
    ELSE LET m == RunVal(S, FnOf(S, c), v) IN
         IF m = "pass" THEN r
         ELSE IF m = "?odd" THEN Unspec
         ELSE AddW(ErrX("ValidationError", "", <<"any*">>, <<"any*">>, <<>>, m), r.w)

\* --- load
LoadV(S, j, T, k) ==
    IF j = NONE /\ ~CanNone(S, T) THEN Raise(j, T)
    ELSE IF (~k.strict /\ T = NatType(j)) \/ T = <<"any">>
    THEN Validate(S, k.fork, j, T, Ok(j))
    ELSE IF j[1] \notin ValidTags THEN Raise(j, T)
    ELSE LET m == MetaOf(S, j) IN
         IF m.t = "odd" THEN Unspec
         ELSE IF m.t = "err"
         THEN ErrX(m.k, "", IF m.k = "UnknownClassError" THEN j ELSE j, NOT, <<>>, "")
         ELSE LET T1 == Prec(T, m.T, NatType(j), k.inferred)
                  g == GetDes(S, k.fork, T1, FALSE)
                  k1 == [k EXCEPT !.inferred = (T1 # T),
                                  !.hints = IF m.h # <<>> THEN m.h ELSE @]
                  r == ApplyDes(S, g, j, IF g.nw THEN g.T ELSE T1, k1)
              IN IF IsErr(r) THEN (IF r.k = "raw" THEN AddW(ErrX("DeserializationError", "", j, T1, <<>>, r.m), r.w)
                                   ELSE r)
                 ELSE IF ~IsOk(r) THEN r
                 ELSE Validate(S, k.fork, r.v, T1, r)

RawErr == Err("raw")     \* any exception that is no JsonsError: wrapped by LoadV

ApplyDes(S, g, j, T, k) ==
    IF g.c THEN CustomDes(S, FnOf(S, g.fn), j, T, k)
    ELSE CASE g.fn = "prim" ->
                (IF j = NONE THEN Ok(j)
                 ELSE LET r == Cast(j, T[1]) IN
                      IF IsErr(r)
                      THEN (IF j[1] \in {"str", "xflt"} THEN Raise(j, T) ELSE RawErr) ELSE r)
           [] g.fn = "str" -> DesStr(S, j, T, k)
           [] g.fn = "nonetype" -> (IF j = NONE THEN Ok(j) ELSE Raise(j, T))
           [] g.fn = "list" -> DesList(S, j, T, k)
           [] g.fn = "tuple" -> (IF IsCls(T) THEN DesNT(S, j, T, k) ELSE DesTuple(S, j, T, k))
           [] g.fn = "iter" ->
                (LET r == DesList(S, j, T, k) IN
                 IF ~IsOk(r) THEN r
                 ELSE CASE T[1] \in {"set", "frozenset"} ->
                                (IF \E i \in 1..Len(r.v[2]) : Unhashable(r.v[2][i]) THEN RawErr
                                 ELSE IF \E i \in 1..Len(r.v[2]) : ~Hashable(r.v[2][i]) THEN Unspec
                                 ELSE [r EXCEPT !.v = <<IF T[1] = "set" THEN "set" ELSE "fset", r.v[2]>>])
                        [] T[1] = "deque" -> [r EXCEPT !.v = <<"deque", r.v[2]>>]
                        [] OTHER -> r)
           [] g.fn = "map" -> DesMap(S, j, T, k)
           [] g.fn = "defaultdict" ->
                (LET r == LoadV(S, j, <<"dict", T[2], T[3]>>, k) IN
                 IF IsOk(r) /\ r.v[1] = "dict" THEN [r EXCEPT !.v = <<"ddict", r.v[2]>>] ELSE r)
           [] g.fn = "union" -> DesUnion(S, j, T, k, 1)
           [] g.fn = "enum" -> DesEnum(S, j, T, k)
           [] g.fn = "datetime" ->
                (IF j[1] # "str" THEN RawErr
                 ELSE LET r == ParseDT(j[2]) IN
                      IF r = BAD THEN RawErr ELSE IF r = ODD THEN Unspec ELSE Ok(r))
           [] g.fn = "date" ->
                (IF j[1] # "str" THEN RawErr
                 ELSE LET r == ParseDate(j[2]) IN
                      IF r = BAD THEN RawErr ELSE IF r = ODD THEN Unspec ELSE Ok(r))
           [] g.fn = "time" ->
                (IF j[1] # "str" THEN RawErr
                 ELSE LET r == ParseTime(j[2]) IN
                      IF r = BAD THEN RawErr ELSE IF r = ODD THEN Unspec ELSE Ok(r))
           [] g.fn = "timedelta" ->
                (CASE j[1] \in {"int", "flt", "bool"} -> (LET x == AsFlt(j) IN Ok(<<"td", x[2], x[3], x[4]>>))
                   [] j[1] \in {"bigint", "xflt"} -> Unspec
                   [] OTHER -> RawErr)
           [] g.fn = "timezone" ->
                (IF j[1] # "dict" \/ ~HasP(j[2], Str("offset")) THEN RawErr
                 ELSE LET r == LoadV(S, GetP(j[2], Str("offset")), <<"timedelta">>, k) IN
                      IF ~IsOk(r) THEN r
                      ELSE IF ~HasP(j[2], Str("name")) THEN RawErr
                      ELSE LET n == GetP(j[2], Str("name")) IN
                           IF n[1] # "str" \/ r.v[1] # "td" THEN RawErr
                           ELSE IF r.v[3] >= 86400 THEN RawErr
                           ELSE IF r.v[4] # 0 THEN Unspec
                           ELSE Ok(<<"tz", r.v[2] * r.v[3], n[2]>>))
           [] g.fn = "zoneinfo" ->
                (IF j[1] # "dict" \/ ~HasP(j[2], Str("key")) THEN RawErr
                 ELSE LET n == GetP(j[2], Str("key")) IN
                      IF n[1] # "str" THEN RawErr
                      ELSE IF InSeq(n[2], S.w.zones) THEN Ok(<<"zi", n[2]>>)
                      ELSE RawErr)
           [] g.fn = "uuid" ->
                (IF j[1] # "str" THEN RawErr
                 ELSE LET u == UuidText(j[2]) IN
                      IF u = "bad" THEN RawErr ELSE IF u = "odd" THEN Unspec ELSE Ok(<<"uuid", u>>))
           [] g.fn = "decimal" -> (IF j[1] = "str"
                                   THEN (LET d == DecText(j[2]) IN
                                         IF d = "bad" THEN RawErr ELSE IF d = "odd" THEN Unspec ELSE Ok(<<"dec", d>>))
                                   ELSE IF j[1] = "int" THEN Ok(<<"dec", ToString(j[2])>>)
                                   ELSE IF j[1] = "bool" THEN Ok(<<"dec", IF j[2] THEN "1" ELSE "0">>)
                                   ELSE IF j[1] = "flt" THEN
                                     (IF j[4] = 0 THEN Ok(<<"dec", (IF j[2] < 0 THEN "-" ELSE "") \o ToString(j[3])>>)
                                      ELSE IF j[4] = 500000 THEN Ok(<<"dec", (IF j[2] < 0 THEN "-" ELSE "") \o ToString(j[3]) \o ".5">>)
                                      ELSE Unspec)
                                   ELSE IF j[1] \in {"none", "dict", "set"} THEN RawErr
                                   ELSE Unspec)
           [] g.fn = "path" -> (IF j[1] # "str" THEN RawErr ELSE (LET d == PathText(j[2]) IN
                                                           IF d = "odd" THEN Unspec ELSE Ok(<<"path", d>>)))
           [] g.fn = "complex" ->
                (IF j[1] # "dict" THEN RawErr
                 ELSE IF ~HasP(j[2], Str("real")) \/ ~HasP(j[2], Str("imag")) THEN RawErr
                 ELSE LET r == LoadV(S, <<"dict", << <<Str("real"), GetP(j[2], Str("real"))>>,
                                                    <<Str("imag"), GetP(j[2], Str("imag"))>> >> >>,
                                     <<"dict", <<"str">>, <<"float">>>>, [K0 EXCEPT !.fork = k.fork]) IN
                      IF ~IsOk(r) THEN (IF IsErr(r) /\ r.k = "ValidationError" THEN r ELSE IF IsErr(r) THEN RawErr ELSE r)
                      ELSE LET a == GetP(r.v[2], Str("real"))  b == GetP(r.v[2], Str("imag")) IN
                           IF a[1] \in {"flt", "int", "bool"} /\ b[1] \in {"flt", "int", "bool"}
                           THEN Ok(<<"cplx", AsFlt(a), AsFlt(b)>>)
                           ELSE IF {a[1], b[1]} \cap {"none", "str", "list", "dict"} # {} THEN RawErr ELSE Unspec)
           [] g.fn = "obj" -> DesObj(S, j, T, k)
           [] OTHER -> Raise(j, T)

DesStr(S, j, T, k) ==
    IF T = <<"str">> /\ ~k.inferred THEN CastStr(j)
    ELSE LET r == LoadV(S, j, <<"datetime">>, [k EXCEPT !.inferred = FALSE]) IN
         IF IsErr(r) /\ r.k \in DeserFamily THEN CastStr(j) ELSE r

DesEnum(S, j, T, k) ==
    LET C == Cls(S, T[2])
        hashable == j[1] \notin {"list", "dict", "set"}
        byName == IF j[1] # "str" THEN NONE
                  ELSE IF HasP(C.en, j[2]) THEN <<"enum", T[2], j[2]>>
                  ELSE IF HasP(C.al, j[2]) THEN <<"enum", T[2], GetP(C.al, j[2])>> ELSE NONE
        vals == {i \in 1..Len(C.en) : PyEq(C.en[i][2], j)}
        byVal == IF vals = {} THEN NONE
                 ELSE <<"enum", T[2], C.en[CHOOSE i \in vals : \A x \in vals : i <= x][1]>>
    IN IF k.enumname = "yes" THEN (IF byName # NONE THEN Ok(byName) ELSE RawErr)
       ELSE IF k.enumname = "no" THEN (IF byVal # NONE THEN Ok(byVal) ELSE RawErr)
       ELSE IF ~hashable THEN RawErr
       ELSE IF byName # NONE THEN Ok(byName)
       ELSE IF byVal # NONE THEN Ok(byVal) ELSE RawErr

DesList(S, j, T, k) ==
    IF k.tasks < 1 THEN Err("JsonsError")
    ELSE IF ~IsIterable(j) THEN RawErr
    ELSE LET es == Elems(j)
             typed == Len(T) > 1
             ET == IF typed THEN T[2] ELSE NOT
         IN DesListEach(S, es, ET, [k EXCEPT !.inferred = IF typed THEN TRUE ELSE @,
                                              !.warn = FALSE, !.tasks = 1], k.warn, 1, Acc0)
DesListEach(S, es, ET, k, warn, i, acc) ==
    IF i > Len(es) THEN OkW(<<"list", acc.v>>, acc.w)
    ELSE LET r == LoadV(S, es[i], ET, k) IN
         IF IsOk(r) THEN DesListEach(S, es, ET, k, warn, i + 1,
                                     [v |-> Append(acc.v, r.v), w |-> acc.w \o r.w])
         ELSE IF r.t = "unspec" \/ r.k \notin DeserFamily THEN AddW(r, acc.w)
         ELSE IF warn
         THEN DesListEach(S, es, ET, k, warn, i + 1,
                          [acc EXCEPT !.w = @ \o r.w \o Warned(S, k.fork, "element-not-deserialized")])
         ELSE [r EXCEPT !.k = "DeserializationError", !.i = <<i - 1>> \o @, !.w = acc.w \o @]

LoadEach(S, js, Ts, k, i, acc) ==
    IF i > Len(js) THEN OkW(<<"tuple", acc.v>>, acc.w)
    ELSE IF i > Len(Ts) THEN AddW(RawErr, acc.w)
    ELSE LET r == LoadV(S, js[i], Ts[i], k) IN
         IF ~IsOk(r) THEN AddW(r, acc.w)
         ELSE LoadEach(S, js, Ts, k, i + 1, [v |-> Append(acc.v, r.v), w |-> acc.w \o r.w])

DesTuple(S, j, T, k) ==
    IF ~IsIterable(j) THEN RawErr
    ELSE LET es == Elems(j)  n == Len(es) IN
         CASE T[1] = "tuplen" /\ Len(T[2]) > 0 -> LoadEach(S, es, T[2], [k EXCEPT !.inferred = TRUE], 1, Acc0)
           [] T[1] = "tuplee" -> LoadEach(S, es, Const(T[2], n), [k EXCEPT !.inferred = TRUE], 1, Acc0)
           [] OTHER -> LoadEach(S, es, Const(NOT, n), k, 1, Acc0)

DesNT(S, j, T, k) ==
    IF j[1] \notin {"dict", "list", "tuple", "str", "set"} THEN RawErr
    ELSE IF j[1] = "set" THEN Unspec
    ELSE IF j[1] = "dict" /\ k.kt # "" /\ \E i \in 1..Len(j[2]) : j[2][i][1][1] # "str" THEN RawErr
    ELSE LET obj == IF j[1] = "dict"
                    THEN [i \in 1..Len(j[2]) |->
                            <<IF j[2][i][1][1] = "str" THEN Str(KT(k.kt, j[2][i][1][2])) ELSE j[2][i][1], j[2][i][2]>>]
                    ELSE <<>>
         IN DesNTFields(S, j, obj, T, [k EXCEPT !.inferred = TRUE], 1, Acc0)
RECURSIVE LastP(_, _, _)
LastP(ps, key, i) == IF i = 0 THEN 0 ELSE IF ps[i][1] = key THEN i ELSE LastP(ps, key, i - 1)
DesNTFields(S, j, obj, T, k, i, acc) ==
    LET ps == Cls(S, T[2]).ps IN
    IF i > Len(ps) THEN OkW(<<"nt", T[2], acc.v>>, acc.w)
    ELSE LET p == ps[i]
             es == IF j[1] = "dict" THEN <<>> ELSE Elems(j)
             present == IF j[1] = "dict" THEN HasP(obj, Str(p[1])) ELSE i <= Len(es)
             field == IF ~present THEN NONE
                      ELSE IF j[1] = "dict" THEN obj[LastP(obj, Str(p[1]), Len(obj))][2] ELSE es[i]
         IN IF ~present /\ p[3][1] = "val"
            THEN DesNTFields(S, j, obj, T, k, i + 1, [acc EXCEPT !.v = Append(@, p[3][2])])
            ELSE IF field = NONE /\ ~CanNone(S, p[2])
            THEN AddW(ErrX("UnfulfilledArgumentError", p[1], j, T, <<>>, ""), acc.w)
            ELSE LET r == LoadV(S, field, p[2], k) IN
                 IF ~IsOk(r) THEN AddW(r, acc.w)
                 ELSE DesNTFields(S, j, obj, T, k, i + 1,
                                  [v |-> Append(acc.v, r.v), w |-> acc.w \o r.w])

DesUnion(S, j, T, k, i) ==
    IF i > Len(T[2]) THEN Raise(j, T)
    ELSE LET r == LoadV(S, j, T[2][i], [k EXCEPT !.inferred = FALSE]) IN
         IF IsErr(r) THEN AddW(DesUnion(S, j, T, k, i + 1), r.w) ELSE r

\* --- mappings
KEYS == Str("-keys")
KeyStr(key) == CASE key[1] = "str" -> key[2]
                 [] key[1] = "int" -> ToString(key[2])
                 [] key[1] = "bool" -> (IF key[2] THEN "True" ELSE "False")
                 [] key[1] = "none" -> "None"
                 [] OTHER -> "?"
DesMap(S, j, T, k) ==
    IF j[1] # "dict" THEN RawErr
    ELSE LET typed == Len(T) = 3
             stored == IF HasP(j[2], KEYS) THEN GetP(j[2], KEYS) ELSE <<"dict", <<>>>>
         IN IF stored[1] # "dict"
            THEN (IF stored[1] \in {"list", "tuple", "set", "str"} /\ Elems(stored) = <<>>
                  THEN DesPairs(S, j[2], T, k, <<>>, 1, Acc0) ELSE Unspec)
            ELSE IF stored[2] = <<>> THEN DesPairs(S, j[2], T, k, <<>>, 1, Acc0)
            ELSE IF ~typed THEN Raise(j, <<"any*">>)
            ELSE DesHashed(S, j, T, k, 1, [p |-> j[2], l |-> <<>>, w |-> <<>>])
DesHashed(S, j, T, k, i, acc) ==
    LET stored == GetP(j[2], KEYS)[2] IN
    IF i > Len(stored) THEN DesPairs(S, DelP(acc.p, KEYS), T, k, acc.l, 1, [v |-> <<>>, w |-> acc.w])
    ELSE LET h == stored[i][1]
             r == LoadV(S, stored[i][2], T[2], [k EXCEPT !.warn = FALSE])
         IN IF ~IsOk(r) THEN AddW(r, acc.w)
            ELSE IF ~HasP(acc.p, h) \/ Unhashable(r.v) THEN AddW(RawErr, acc.w \o r.w)
            ELSE DesHashed(S, j, T, k, i + 1,
                   [p |-> PutP(DelP(acc.p, h), r.v, GetP(acc.p, h)), l |-> Append(acc.l, r.v),
                    w |-> acc.w \o r.w])
DesPairs(S, ps, T, k, loaded, i, acc) ==
    IF i > Len(ps)
    THEN OkW(IF T[1] = "odict" THEN <<"odict", acc.v>>
             ELSE IF T[1] = "defaultdict" THEN <<"unk">> ELSE <<"dict", acc.v>>, acc.w)
    ELSE LET key == ps[i][1]
             typed == Len(T) = 3
             tk == IF key[1] = "str" THEN Str(KT(k.kt, key[2])) ELSE key
             \* the keys are loaded without the key transformer
             rk == IF typed /\ ~InSeq(key, loaded)
                   THEN LoadV(S, tk, T[2], [k EXCEPT !.kt = ""]) ELSE Ok(IF InSeq(key, loaded) THEN key ELSE tk)
         IN IF ~IsOk(rk) THEN AddW(rk, acc.w)
            ELSE LET r == LoadV(S, ps[i][2], IF typed THEN T[3] ELSE NOT,
                                [k EXCEPT !.hints = NestedHints(@, KeyStr(key)),
                                          !.inferred = IF typed THEN TRUE ELSE @])
                 IN IF ~IsOk(r) THEN AddW(r, acc.w \o rk.w)
                    ELSE IF Unhashable(rk.v) THEN AddW(RawErr, acc.w \o rk.w \o r.w)
                    ELSE IF rk.v[1] \in {"anystr", "unk"} THEN Unspec
                    ELSE DesPairs(S, ps, T, k, loaded, i + 1,
                                  [v |-> PutP(acc.v, rk.v, r.v), w |-> acc.w \o r.w \o rk.w])

\* --- objects
IsMapT(T) == T[1] \in MapNames /\ Len(T) > 1
HintIsMap(S, T0) == LET T == Unwrap(S, T0) IN
                    IF T[1] = "union"
                    THEN LET nn == SelectSeq(T[2], LAMBDA x : x # NT) IN
                         Len(nn) = 1 /\ Len(T[2]) > 1 /\ IsMapT(Unwrap(S, nn[1]))
                    ELSE IsMapT(T)
(* The class for an attribute: [t, T, h]                                      *)
ClsForAttr(S, T, hints, a) ==
    LET h == NestedHints(hints, a)
        has == HasP(h, "/")
        n0 == IF has THEN GetP(h, "/") ELSE Str("")
        Done(Tm) == [t |-> "ok", T |-> Prec(T, Tm, NOT, TRUE), h |-> h]
    IN IF ~has THEN Done(NOT)
       ELSE IF n0[1] # "str" THEN [t |-> "err"]
       ELSE LET n == IF n0[2] = "dict" THEN "typing.Dict" ELSE n0[2] IN
            IF n = "" THEN Done(NOT)
            ELSE IF (\E m \in {"typing.Dict", "collections.OrderedDict", "collections.defaultdict"} :
                       StartsWith(n, m)) /\ HintIsMap(S, T)
            THEN Done(NOT)
            ELSE IF n = "typing.Dict" THEN Done(<<"Dict">>)
            ELSE LET r == ResolveName(S, n) IN
                 IF r[1] = "ok" THEN Done(r[2])
                 ELSE IF r[1] = "odd" THEN [t |-> "odd"] ELSE [t |-> "unknown"]

TransHints(h, kt) ==
    [i \in 1..Len(h) |->
       LET body == StrTail(h[i][1])
           parts == Split(body, "/")
           p1 == IF parts[1] = "" THEN "" ELSE KT(kt, parts[1])
       IN <<"/" \o Join([x \in 1..Len(parts) |-> IF x = 1 THEN p1 ELSE parts[x]], "/", 1), h[i][2]>>]

Falsy(j) == IF j[1] = "none" THEN TRUE ELSE IF j[1] \in {"xflt"} THEN FALSE ELSE ~CastBool(j).v[2]

RECURSIVE TransKeys(_, _, _, _)
TransKeys(ps, kt, i, acc) ==
    IF i > Len(ps) THEN acc
    ELSE LET key == ps[i][1] IN
         TransKeys(ps, kt, i + 1, PutP(acc, IF key = META THEN key ELSE Str(KT(kt, key[2])), ps[i][2]))

(* Whatever is no constructor argument becomes an attribute.                  *)
SetAttr(C, attrs, a, v) ==
    IF a \in NamesOf(C.pr)
    THEN LET p == C.pr[PairIdx(C.pr, a, 1)] IN
         IF p[2] = "rw" /\ ~C.frozen THEN PutP(attrs, p[3][2], v) ELSE attrs
    ELSE IF C.frozen \/ (C.slots /\ ~InSeq(a, C.slotvars)) THEN attrs
    ELSE PutP(attrs, a, v)
DesObj(S, j, T, k0) ==
    IF ~IsCls(T) THEN Unspec
    ELSE IF j[1] # "dict" /\ ~(j[1] \in {"list", "str", "tuple", "set"} /\ Elems(j) = <<>>)
    THEN (IF j[1] \in {"list", "str", "tuple"} THEN
             \* element access by name fails, unless a missing (or, when strict, unexpected) argument is noticed first
             (IF k0.strict \/ \E i \in 1..Len(Cls(S, T[2]).ps) : Cls(S, T[2]).ps[i][3][1] = "req" THEN Err("anydeser") ELSE RawErr)
          ELSE IF \E i \in 1..Len(Cls(S, T[2]).ps) : Cls(S, T[2]).ps[i][3][1] = "req" THEN Err("anydeser") ELSE RawErr)
    ELSE LET ps0 == IF j[1] = "dict" THEN j[2] ELSE <<>> IN
         IF k0.kt # "" /\ \E i \in 1..Len(ps0) : ps0[i][1][1] # "str" THEN RawErr
         ELSE LET ps == IF k0.kt = "" THEN ps0 ELSE TransKeys(ps0, k0.kt, 1, <<>>)
                  k == [k0 EXCEPT !.hints = IF k0.kt = "" THEN @ ELSE TransHints(@, k0.kt),
                                  !.inferred = TRUE]
                  C == Cls(S, T[2])
                  r == DesCtor(S, <<j, ps>>, T, k, C.ps, 1, [v |-> <<>>, g |-> k.getters, w |-> <<>>])
              IN IF ~IsOk(r) THEN r
                 ELSE LET argn == r.v.used
                          rest == SelectSeq(ps, LAMBDA p : p[1] # META /\
                                              ~(p[1][1] = "str" /\ p[1][2] \in argn))
                      IN IF k.strict /\ rest # <<>>
                         THEN AddW(ErrX("SignatureMismatchError",
                                        IF rest[1][1][1] = "str" THEN rest[1][1][2] ELSE "?",
                                        <<"any*">>, T, <<>>, ""), r.w)
                         ELSE LET q == DesRest(S, rest, T, [k EXCEPT !.getters = <<>>], 1, r.v.attrs, r.w)
                              IN IF ~IsOk(q) THEN q
                                 ELSE SetGetters(C, T, q.v, r.v.g, 1, q.w)

(* The attr_getters that were no constructor argument.                        *)
CanSet(C, a) == IF a \in NamesOf(C.pr) THEN C.pr[PairIdx(C.pr, a, 1)][2] = "rw"
                ELSE ~C.frozen /\ (C.slots => InSeq(a, C.slotvars))
SetGetters(C, T, attrs, gs, i, w) ==
    IF i > Len(gs) THEN OkW(<<"obj", T[2], attrs>>, w)
    ELSE IF ~CanSet(C, gs[i][1]) THEN AddW(RawErr, w)
    ELSE SetGetters(C, T, SetAttr(C, attrs, gs[i][1], gs[i][2]), gs, i + 1, w)

(* Constructor arguments, in the order of the signature.                      *)
(* acc: v the attributes they set, g the attr_getters that are left           *)
DesCtor(S, jp, T, k, pars, i, acc) ==
    IF i > Len(pars)
    THEN OkW([attrs |-> acc.v, g |-> acc.g,
              used |-> {pars[x][1] : x \in {y \in 1..Len(pars) : pars[y][4] \in {"p", "k"}}}], acc.w)
    ELSE LET p == pars[i]     \* <<name, T, default, kind, attribute>>
             Next(v, a, w) == DesCtor(S, jp, T, k, pars, i + 1,
                                [v |-> IF p[5] = "" THEN acc.v ELSE PutP(acc.v, p[5], v),
                                 g |-> a, w |-> acc.w \o w])
         IN IF HasP(jp[2], Str(p[1])) /\ p[4] \in {"p", "k"}
            THEN LET c == ClsForAttr(S, p[2], k.hints, p[1]) IN
                 IF c.t = "err" THEN AddW(RawErr, acc.w)
                 ELSE IF c.t = "odd" THEN Unspec
                 ELSE IF c.t = "unknown"
                 THEN AddW(ErrX("UnknownClassError", "", <<"any*">>, NOT, <<>>, ""), acc.w)
                 ELSE LET r == LoadV(S, GetP(jp[2], Str(p[1])), c.T,
                                     [k EXCEPT !.hints = c.h, !.getters = <<>>]) IN
                      IF ~IsOk(r) THEN AddW(r, acc.w) ELSE Next(r.v, acc.g, r.w)
            ELSE IF HasP(jp[2], Str(p[1])) THEN Unspec
            ELSE IF HasP(acc.g, p[1])
            THEN (IF p[4] \in {"p", "k"} THEN Next(GetP(acc.g, p[1]), DelP(acc.g, p[1]), <<>>) ELSE Unspec)
            ELSE IF p[4] \in {"va", "vk"} THEN DesCtor(S, jp, T, k, pars, i + 1, acc)
            ELSE IF p[3][1] = "val" THEN Next(p[3][2], acc.g, <<>>)
            ELSE IF CanNone(S, p[2]) THEN Next(NONE, acc.g, <<>>)
            ELSE \* (with a key_transformer it became another dict)
                 AddW(ErrX("UnfulfilledArgumentError", p[1],
                           IF jp[1][1] = "dict" /\ jp[1][2] = jp[2] THEN jp[1] ELSE <<"any*">>, T, <<>>, ""),
                      acc.w)

DesRest(S, rest, T, k, i, attrs, w) ==
    IF i > Len(rest) THEN OkW(attrs, w)
    ELSE LET key == rest[i][1]
             C == Cls(S, T[2])
         IN IF key[1] # "str" THEN AddW(RawErr, w)
            ELSE LET a == key[2]
                     j == rest[i][2]
                     T0 == IF HasP(C.an, a) THEN GetP(C.an, a) ELSE NOT
                     ro == a \in NamesOf(C.pr) /\ C.pr[PairIdx(C.pr, a, 1)][2] = "ro"
                     c == IF ro THEN [t |-> "ok", T |-> T0, h |-> <<>>]
                          ELSE ClsForAttr(S, T0, k.hints, a)
                     hk == j[1] = "dict" /\ HasP(j[2], KEYS) /\ T0 = NOT
                 IN IF c.t = "err" THEN AddW(RawErr, w)
                    ELSE IF c.t = "odd" THEN Unspec
                    ELSE IF c.t = "unknown"
                    THEN AddW(ErrX("UnknownClassError", "", <<"any*">>, NOT, <<>>, ""), w)
                    ELSE LET T1 == IF c.T = NOT THEN NatType(j) ELSE c.T
                             r == LoadV(S, j, T1, [k EXCEPT !.hints = c.h])
                             wk == IF hk THEN Warned(S, k.fork, "hashed-keys-without-hint") ELSE <<>>
                         IN IF ~IsOk(r) THEN AddW(r, w \o wk)
                            ELSE DesRest(S, rest, T, k, i + 1, SetAttr(C, attrs, a, r.v), w \o wk \o r.w)

\* ----------------------------------------------- custom deserializers -----
CustomDes(S, b, j, T, k) ==
    CASE b[1] = "const" -> Ok(b[2])
      [] b[1] = "tag" ->
           Ok(<<"tuple", <<Str("D:" \o b[2]), j, Str(TName(T)), BoolV(k.strict), IntV(k.fork), k.xtra>>>>)
      [] b[1] = "dele" ->     \* load j as b[3], pass it on in a tuple
           (LET r == LoadV(S, j, b[3], k) IN
            IF ~IsOk(r) THEN r ELSE OkW(<<"tuple", <<Str("D:" \o b[2]), r.v>>>>, r.w))
      [] b[1] = "nest" ->     \* the same, with options of its own
           (LET r == LoadV(S, j, b[3], KOf(b[4])) IN
            IF ~IsOk(r) THEN r ELSE OkW(<<"tuple", <<Str("D:" \o b[2]), r.v>>>>, r.w))
      [] b[1] = "super" -> DesObj(S, j, T, k)
      [] b[1] = "raise" -> RawErr
      [] OTHER -> Unspec

\* ============================================================ comparison ==
(* Does the observed value o match the expected value e?                      *)
RECURSIVE Concrete(_)
RECURSIVE Match(_, _), MatchSeq(_, _, _), MatchPairs(_, _), MatchBag(_, _), MatchHDict(_, _)
RECURSIVE SetOfSeq(_, _, _)
SetOfSeq(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE SetOfSeq(s, i + 1, IF \E x \in 1..Len(acc) : PyEq(acc[x], s[i]) THEN acc ELSE Append(acc, s[i]))
RemoveIdx(s, i) == [x \in 1..(Len(s) - 1) |-> IF x < i THEN s[x] ELSE s[x + 1]]
Match(e, o) ==
    CASE e[1] = "anystr" -> o[1] = "str"
      [] e[1] \in {"unk", "any*"} -> TRUE
      [] e[1] = "ulist" -> o[1] = "list" /\ MatchBag(e[2], o[2])
      [] e[1] \in {"set", "fset"} -> e[1] = o[1] /\
           (IF Concrete(e) THEN MatchBag(SetOfSeq(e[2], 1, <<>>), o[2])
            ELSE Len(o[2]) <= Len(e[2]) /\ \A x \in 1..Len(o[2]) : \E y \in 1..Len(e[2]) : Match(e[2][y], o[2][x]))
      [] e[1] = "hdict" -> o[1] = "dict" /\ MatchHDict(e, o)
      [] e[1] # o[1] -> FALSE
      [] e[1] \in {"list", "tuple", "deque"} -> Len(e[2]) = Len(o[2]) /\ MatchSeq(e[2], o[2], 1)
      [] e[1] = "odict" -> Len(e[2]) = Len(o[2])
                             /\ \A i \in 1..Len(e[2]) : MatchSeq(e[2][i], o[2][i], 1)
      [] e[1] \in {"dict", "ddict"} -> MatchPairs(e[2], o[2])
      [] e[1] = "obj" -> e[2] = o[2] /\ Len(e[3]) = Len(o[3])
                           /\ \A i \in 1..Len(e[3]) :
                                HasP(o[3], e[3][i][1]) /\ Match(e[3][i][2], GetP(o[3], e[3][i][1]))
      [] e[1] = "nt" -> e[2] = o[2] /\ Len(e[3]) = Len(o[3]) /\ MatchSeq(e[3], o[3], 1)
         \* (the name of a timezone is not part of its value)
      [] e[1] = "dt" /\ e[4] = "named" -> e[2] = o[2] /\ e[3] = o[3] /\ o[4] \in {"named", "fixed"}
      [] OTHER -> e = o
MatchSeq(e, o, i) == IF i > Len(e) THEN TRUE ELSE Match(e[i], o[i]) /\ MatchSeq(e, o, i + 1)
(* Equal as multisets.                                                        *)
MatchBag(e, o) ==
    IF Len(e) # Len(o) THEN FALSE
    ELSE IF e = <<>> THEN TRUE
    ELSE \E i \in 1..Len(o) : Match(e[1], o[i]) /\ MatchBag(Tail(e), RemoveIdx(o, i))
(* The pairs of dicts, in any order.                                          *)
MatchPairs(e, o) ==
    IF Len(e) # Len(o) THEN FALSE
    ELSE IF e = <<>> THEN TRUE
    ELSE \E i \in 1..Len(o) : /\ Match(e[1][1], o[i][1]) /\ Match(e[1][2], o[i][2])
                              /\ MatchPairs(Tail(e), RemoveIdx(o, i))
(* A dict with hashed keys: every <<dumped key, value>> is stored under a     *)
(* number of its own, the dumped key itself in the section -keys.             *)
RECURSIVE MatchHashed(_, _, _)
MatchHashed(h, ks, o) ==
    IF Len(h) # Len(ks) THEN FALSE
    ELSE IF h = <<>> THEN TRUE
    ELSE \E i \in 1..Len(ks) :
           /\ ks[i][1][1] \in {"int", "bigint"}
           /\ Match(h[1][1], ks[i][2])
           /\ HasP(o, ks[i][1]) /\ Match(h[1][2], GetP(o, ks[i][1]))
           /\ MatchHashed(Tail(h), RemoveIdx(ks, i), o)
MatchHDict(e, o) ==
    /\ HasP(o[2], KEYS) /\ GetP(o[2], KEYS)[1] = "dict"
    /\ LET ks == GetP(o[2], KEYS)[2]
           plain == SelectSeq(o[2], LAMBDA p : p[1] # KEYS /\ ~HasP(ks, p[1]))
       IN MatchPairs(e[2], plain) /\ MatchHashed(e[3], ks, o[2])
            /\ Len(o[2]) = Len(e[2]) + Len(e[3]) + 1
(* Nothing in the value is left open.                                         *)
Concrete(e) ==
    CASE e[1] \in {"anystr", "unk", "any*", "weird", "missing"} -> FALSE
      [] e[1] \in {"ulist", "list", "tuple", "set", "fset", "deque"} -> \A i \in 1..Len(e[2]) : Concrete(e[2][i])
      [] e[1] \in {"dict", "ddict", "odict"} ->
           \A i \in 1..Len(e[2]) : Concrete(e[2][i][1]) /\ Concrete(e[2][i][2])
      [] e[1] = "hdict" -> FALSE
      [] e[1] = "obj" -> \A i \in 1..Len(e[3]) : Concrete(e[3][i][2])
      [] e[1] = "nt" -> \A i \in 1..Len(e[3]) : Concrete(e[3][i])
      [] OTHER -> TRUE
=============================================================================
