------------------------------- MODULE Shapes --------------------------------
(* Every type, JSON value and value up to a bounded size, over a small world *)
(* (JW_WORLDS: the classes Small, Sub of it, the enum Hue, the named tuple   *)
(* Duo and the NewType Num).  TLC checks on all combinations that what the   *)
(* specification says has the properties that are claimed for jsons: what is *)
(* loaded conforms to its type, what is dumped is JSON-native and loads back,*)
(* strict loading only refines loading, None only gets where it may be.      *)
(* The cases are exported and replayed with the real code.                   *)
EXTENDS Registry, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Mode,      \* "load", "value" or "export"
          Wide       \* the bigger bounds?
Worlds == ndJsonDeserialize(IOEnv.JW_WORLDS)
S0 == [w |-> Worlds[1], f |-> <<NewReg>>, ann |-> EmptyFcn, seen |-> TRUE]

C(n) == <<"cls", n>>
Prims == {<<"int">>, <<"str">>, <<"bool">>, <<"float">>}
Leaves == Prims \cup {NT, <<"date">>, C("Small"), C("Sub"), C("Hue"), C("Duo"), <<"newtype", "Num">>}
Bare == {<<"list">>, <<"dict">>, <<"any">>, <<"object">>}
IsU(t) == t[1] = "union"
NoOpt(t) == ~IsU(t) /\ t \notin {NT, <<"any">>, <<"object">>}
Opt(t) == <<"union", <<t, NT>>>>
CanKey(t) == t[1] \in {"int", "str", "bool", "float", "date", "cls", "newtype"} /\ t \notin {C("Small"), C("Sub"), C("Duo")}
Unary(ts) == {<<"list", t>> : t \in ts} \cup {<<"tuplee", t>> : t \in ts}
               \cup {<<"dict", <<"str">>, t>> : t \in ts} \cup {Opt(t) : t \in {u \in ts : NoOpt(u)}}
Level1 == Unary(Leaves \cup Bare)
            \cup {<<"set", t>> : t \in {u \in Leaves : CanKey(u)}}
            \cup {<<"deque", t>> : t \in Prims \cup {C("Small")}}
            \cup {<<"dict", t, <<"int">>>> : t \in {u \in Leaves : CanKey(u) /\ u # <<"str">>}}
            \cup {<<"tuplen", <<t, u>>>> : t \in {<<"int">>, <<"str">>, C("Small")}, u \in Leaves}
            \cup {<<"union", <<t, u>>>> : <<t, u>> \in {x \in (Leaves \ {NT}) \X (Leaves \ {NT}) : x[1] # x[2]}}
            \cup {<<"tuplen", <<t>>>> : t \in {<<"int">>, C("Small")}} \cup {<<"tuplen", <<>>>>}
Level2 == Unary(Level1 \ {<<"list", t>> : t \in Bare})
            \cup {<<"tuplen", <<t, <<"int">>>>>> : t \in {u \in Level1 : u[1] \in {"list", "dict", "union"}}}
            \cup {<<"union", <<t, u>>>> : t \in {<<"list", <<"int">>>>, <<"dict", <<"str">>, <<"int">>>>, <<"tuplee", <<"str">>>>},
                                          u \in {<<"list", C("Small")>>, <<"list", <<"str">>>>, <<"int">>, <<"dict", <<"str">>, C("Small")>>}}
Types == Leaves \cup Bare \cup Level1 \cup (IF Wide THEN Level2 ELSE {})
(* (a Union with an equal member twice is another type in Python)             *)

\* ------------------------------------------------------------- JSON values -
Date1 == Str("2020-02-29")
J0 == {NONE, BoolV(TRUE), IntV(0), IntV(1), <<"flt", 1, 1, 500000>>, Str("a"), Str(""), Str("1"), Date1, Str("red")}
Few == {NONE, IntV(1), Str("a"), Date1}
D(s) == <<"dict", s>>
P(k, v) == <<Str(k), v>>
Lists(A, B) == {<<"list", <<>>>>} \cup {<<"list", <<a>>>> : a \in A} \cup {<<"list", <<a, b>>>> : a \in A, b \in B}
Dicts(A, B) == {D(<<>>)} \cup {D(<<P("x", a)>>) : a \in A} \cup {D(<<P("q", a)>>) : a \in A}
                 \cup {D(<<P("x", a), P("first_name", b)>>) : a \in A, b \in B}
                 \cup {D(<<P("x", IntV(1)), P("items", b)>>) : b \in B}
                 \cup {D(<<P("1", a)>>) : a \in B}
J1 == Lists(J0, Few) \cup Dicts(J0, Few)
Picks == {D(<<P("x", IntV(1))>>), D(<<P("x", Str("a"))>>), D(<<P("x", IntV(1)), P("q", IntV(2))>>), D(<<>>), <<"list", <<>>>>,
          <<"list", <<IntV(1)>>>>, <<"list", <<Str("a"), NONE>>>>, D(<<P("q", NONE)>>), <<"list", <<IntV(1), IntV(1)>>>>}
J2 == {<<"list", <<a>>>> : a \in (IF Wide THEN J1 ELSE Picks)}
        \cup {<<"list", <<a, b>>>> : a \in Picks, b \in Picks \cup Few}
        \cup {<<"list", <<b, a>>>> : a \in Picks, b \in Few}
        \cup {D(<<P("x", a)>>) : a \in Picks}
        \cup {D(<<P("x", IntV(1)), P("items", b)>>) : b \in Picks}
        \cup (IF Wide THEN {D(<<P("x", a), P("q", b)>>) : a \in Picks, b \in Picks} ELSE {})
Jsons == J0 \cup J1 \cup J2

\* ------------------------------------------------------------------ values -
Small(x, n) == <<"obj", "Small", <<<<"x", x>>, <<"first_name", n>>>>>>
Sub(x, n, s) == <<"obj", "Sub", <<<<"x", x>>, <<"first_name", n>>, <<"items", s>>>>>>
RECURSIVE Vals(_)
ListsOf(t) == LET vs == Vals(t) IN
              {<<>>} \cup {<<a>> : a \in vs} \cup {<<a, b>> : <<a, b>> \in vs \X vs}
Vals(t) ==
    CASE t[1] = "int" -> {IntV(0), IntV(1)}
      [] t[1] = "str" -> {Str("a"), Str("")}
      [] t[1] = "bool" -> {BoolV(FALSE)}
      [] t[1] = "float" -> {<<"flt", 1, 1, 500000>>}
      [] t = NT -> {NONE}
      [] t[1] = "date" -> {<<"date", 2020, 2, 29>>}
      [] t = C("Small") -> {Small(IntV(1), NONE), Small(IntV(2), Str("a"))}
      [] t = C("Sub") -> {Sub(IntV(1), NONE, <<"list", <<>>>>), Sub(IntV(0), Str("b"), <<"list", <<IntV(3)>>>>)}
      [] t = C("Hue") -> {<<"enum", "Hue", "red">>, <<"enum", "Hue", "blue">>}
      [] t = C("Duo") -> {<<"nt", "Duo", <<IntV(1), NONE>>>>, <<"nt", "Duo", <<IntV(2), Small(IntV(1), NONE)>>>>}
      [] t[1] = "newtype" -> Vals(NewTypeOf(S0, t))
      [] t[1] \in {"list", "tuplee", "deque"} /\ Len(t) = 2 ->
           {<<IF t[1] = "tuplee" THEN "tuple" ELSE t[1], s>> : s \in ListsOf(t[2])}
      [] t[1] = "set" -> {<<"set", s>> : s \in {x \in ListsOf(t[2]) : Len(x) < 2 \/ x[1] # x[2]}}
      [] t[1] = "dict" /\ Len(t) = 3 ->
           {D(<<>>)} \cup {D(<<<<key, v>>>>) : key \in Vals(t[2]), v \in Vals(t[3])}
             \cup {D(<<<<ks[1], v>>, <<ks[2], w>>>>) : ks \in {x \in Vals(t[2]) \X Vals(t[2]) : x[1] # x[2]},
                                                       v \in Vals(t[3]), w \in Vals(t[3])}
      [] t[1] = "tuplen" -> (IF Len(t[2]) = 0 THEN {<<"tuple", <<>>>>}
                             ELSE IF Len(t[2]) = 1 THEN {<<"tuple", <<a>>>> : a \in Vals(t[2][1])}
                             ELSE {<<"tuple", <<a, b>>>> : a \in Vals(t[2][1]), b \in Vals(t[2][2])})
      [] t[1] = "union" -> UNION {Vals(t[2][i]) : i \in 1..Len(t[2])}
      [] OTHER -> {}

\* ------------------------------------------------------------- properties --
(* isinstance, at every depth.                                                *)
RECURSIVE Conforms(_, _)
Conforms(v, t) ==
    CASE t \in Bare /\ t \in {<<"any">>, <<"object">>} -> TRUE
      [] t = NOT -> TRUE
      [] t[1] = "newtype" -> Conforms(v, NewTypeOf(S0, t))
      [] t[1] = "union" -> \E i \in 1..Len(t[2]) : Conforms(v, t[2][i])
      [] t[1] = "str" -> v[1] \in {"str", "anystr"}
      [] t[1] \in {"int", "bool", "float"} -> IsInst(v, t[1])
      [] t = NT -> v = NONE
      [] t[1] = "date" -> v[1] = "date"
      [] t[1] = "cls" ->
           /\ v[1] \in {"obj", "nt", "enum"} /\ t[2] \in MroOf(S0, v[2])
           /\ v[1] = "obj" => \A i \in 1..Len(Cls(S0, v[2]).ps) :
                LET p == Cls(S0, v[2]).ps[i] IN HasP(v[3], p[5]) /\ Conforms(GetP(v[3], p[5]), p[2])
           /\ v[1] = "nt" => \A i \in 1..Len(Cls(S0, v[2]).ps) : Conforms(v[3][i], Cls(S0, v[2]).ps[i][2])
      [] t[1] = "tuplee" -> v[1] = "tuple" /\ \A i \in 1..Len(v[2]) : Conforms(v[2][i], t[2])
      [] t[1] = "tuplen" -> /\ v[1] = "tuple"
                            /\ \A i \in 1..Len(v[2]) : i <= Len(t[2]) => Conforms(v[2][i], t[2][i])
                            /\ Len(t[2]) > 0 => Len(v[2]) <= Len(t[2])
      [] t[1] \in {"list", "deque", "set"} ->
           v[1] = t[1] /\ (Len(t) = 2 => \A i \in 1..Len(v[2]) : Conforms(v[2][i], t[2]))
      [] t[1] = "dict" ->
           v[1] = "dict" /\ (Len(t) = 3 => \A i \in 1..Len(v[2]) : Conforms(v[2][i][1], t[2]) /\ Conforms(v[2][i][2], t[3]))
RECURSIVE HasNone(_)
HasNone(v) == \/ v = NONE
              \/ v[1] \in {"list", "tuple", "set", "deque"} /\ \E i \in 1..Len(v[2]) : HasNone(v[2][i])
              \/ v[1] = "dict" /\ \E i \in 1..Len(v[2]) : HasNone(v[2][i][1]) \/ HasNone(v[2][i][2])
RECURSIVE NoBare(_)
NoBare(t) == /\ t \notin Bare
             /\ t[1] \in {"list", "tuplee", "deque", "set"} => NoBare(t[2])
             /\ t[1] = "dict" => NoBare(t[2]) /\ NoBare(t[3])
             /\ t[1] \in {"tuplen", "union"} => \A i \in 1..Len(t[2]) : NoBare(t[2][i])
RECURSIVE NoUnion(_)      \* no Union but Optional
NoUnion(t) == CASE t[1] = "union" -> t[2][2] = NT /\ Len(t[2]) = 2 /\ NoUnion(t[2][1])
                [] t[1] \in {"list", "tuplee", "deque", "set"} /\ Len(t) = 2 -> NoUnion(t[2])
                [] t[1] = "dict" /\ Len(t) = 3 -> NoUnion(t[2]) /\ NoUnion(t[3])
                [] t[1] = "tuplen" -> \A i \in 1..Len(t[2]) : NoUnion(t[2][i])
                [] OTHER -> TRUE
(* Is None allowed anywhere within t?                                         *)
RECURSIVE MayNone(_)
MayNone(t) == CASE t[1] = "union" -> \E i \in 1..Len(t[2]) : MayNone(t[2][i])
                [] t \in Bare \/ t = NT -> TRUE
                [] t[1] \in {"list", "tuplee", "deque", "set"} /\ Len(t) = 2 -> MayNone(t[2])
                [] t[1] = "dict" /\ Len(t) = 3 -> MayNone(t[2]) \/ MayNone(t[3])
                [] t[1] = "tuplen" -> Len(t[2]) = 0 \/ \E i \in 1..Len(t[2]) : MayNone(t[2][i])
                [] OTHER -> FALSE
RECURSIVE Native(_)
Native(v) == \/ v[1] \in {"none", "bool", "int", "flt", "str", "anystr"}
             \/ v[1] \in {"list", "ulist"} /\ \A i \in 1..Len(v[2]) : Native(v[2][i])
             \/ v[1] = "dict" /\ \A i \in 1..Len(v[2]) : v[2][i][1][1] \in JsonKeyTags /\ Native(v[2][i][2])
RECURSIVE AsJson(_)       \* what json makes of a dump (of some order of a set)
AsJson(v) == CASE v[1] \in {"list", "ulist"} -> <<"list", [i \in 1..Len(v[2]) |-> AsJson(v[2][i])]>>
               [] v[1] = "dict" -> D([i \in 1..Len(v[2]) |-> <<v[2][i][1], AsJson(v[2][i][2])>>])
               [] OTHER -> v

VARIABLES T, x
vars == <<T, x>>
Init == /\ T \in (CASE Mode = "load" -> Types [] Mode = "value" -> Types [] OTHER -> {NOT})
        /\ x = <<"start">>
Next == /\ x = <<"start">>
        /\ x' \in (CASE Mode = "load" -> Jsons [] Mode = "value" -> Vals(T) [] OTHER -> {})
        /\ UNCHANGED T
Spec == Init /\ [][Next]_vars
Loaded == x # <<"start">> /\ Mode = "load"
Valued == x # <<"start">> /\ Mode = "value"
R == LoadV(S0, x, T, K0)
RS == LoadV(S0, x, T, [K0 EXCEPT !.strict = TRUE])
(* C03: what is loaded conforms to the type.                                  *)
LoadConforms == Loaded /\ IsOk(R) => Conforms(R.v, T)
(* C03: there is always a value or an error, and the error is one of jsons.   *)
LoadTotal == Loaded => IsOk(R) \/ (IsErr(R) /\ R.k # "raw") \/ (R.t = "unspec" /\ ~NoBare(T))
(* C07: None only where it may be.                                            *)
NoneAllowed == Loaded /\ ~MayNone(T) => ~(IsOk(R) /\ T # <<"bool">> /\ HasNone(R.v))
NoneKept == Loaded /\ x = NONE => (IsOk(R) <=> CanNone(S0, T)) /\ (IsOk(R) => R.v = NONE)
(* C20: strict loading fails or yields the same.                              *)
StrictRefines == Loaded /\ NoUnion(T) /\ IsOk(RS) => IsOk(R) /\ RS.v = R.v
StrictNames == Loaded /\ NoUnion(T) /\ NoBare(T) /\ IsErr(RS) /\ ~IsErr(R) =>
                   RS.k \in {"SignatureMismatchError", "DeserializationError"}
(* C01, C02                                                                   *)
DV == DumpV(S0, x, NOT, K0)
DumpNative == Valued => IsOk(DV) /\ (DV.v[1] # "hdict" => Native(DV.v) \/ ~NoBare(T))
RoundTrip == Valued /\ NoUnion(T) /\ NoBare(T) /\ IsOk(DV) /\ Native(DV.v) =>
                 LET r == LoadV(S0, AsJson(DV.v), T, K0) IN IsOk(r) /\ Match(x, r.v)
ValConforms == Valued => Conforms(x, T)
(* C09: attribute names are restored by the inverse transformer.              *)
RECURSIVE DateKeys(_)      \* (their form is no name: nothing restores it)
DateKeys(t) == CASE t[1] = "dict" /\ Len(t) = 3 -> t[2] = <<"date">> \/ DateKeys(t[3])
                 [] t[1] \in {"list", "tuplee", "deque", "set"} /\ Len(t) = 2 -> DateKeys(t[2])
                 [] t[1] \in {"tuplen", "union"} -> \E i \in 1..Len(t[2]) : DateKeys(t[2][i])
                 [] OTHER -> FALSE
KeyTrip == Valued /\ NoUnion(T) /\ NoBare(T) /\ ~DateKeys(T) =>
             LET d == DumpV(S0, x, NOT, [K0 EXCEPT !.kt = "camel"]) IN
             IsOk(d) /\ Native(d.v) =>
               LET r == LoadV(S0, AsJson(d.v), T, [K0 EXCEPT !.kt = "snake"]) IN IsOk(r) /\ Match(x, r.v)
(* C04: so does the class info.                                               *)
IsObj == x[1] = "obj"
SelfDescribing == Valued /\ IsObj =>
    LET d == DumpV(S0, x, NOT, [K0 EXCEPT !.verb = {"class"}]) IN
    IsOk(d) /\ (Native(d.v) => LET r == LoadV(S0, AsJson(d.v), NOT, K0) IN IsOk(r) /\ Match(x, r.v))

ASSUME Mode = "export" =>
    ndJsonSerialize(IOEnv.JW_OUT \o "/shapes.ndjson",
        <<SetToSeq(Jsons)>> \o SetToSeq({<<t, SetToSeq(Vals(t))>> : t \in Types}))
=============================================================================
