------------------------------ MODULE Selection ------------------------------
(* What of an object is dumped.  Every class of the world (JW_WORLDS; all     *)
(* combinations of a few kinds of members, see harness/bounded.py) with every *)
(* combination of the strip options, strict or not, as its own class, as a    *)
(* superclass or as no class, at the top and in other objects and containers. *)
(* TLC checks, per member of every object in the result, that it is there     *)
(* with its own value unless there is a reason for which it is left out, and  *)
(* that nothing else is there.  The cases are exported and replayed.          *)
EXTENDS Registry, Json, IOUtils, Randomization

CONSTANTS Export,    \* how many of the cases to print, 0: check all of them
          Wraps
Worlds == ndJsonDeserialize(IOEnv.JW_WORLDS)
S0 == [w |-> Worlds[1], f |-> <<NewReg>>, ann |-> EmptyFcn, seen |-> FALSE]
Inst == Worlds[1].inst
C(n) == <<"cls", n>>

Attrs == {<<>>, <<"x">>, <<"_p">>, <<"q", "hq">>, <<"cv", "y">>}
Cases == [n : DOMAIN Inst, i : {1, 2}, strict : BOOLEAN, nulls : BOOLEAN, priv : BOOLEAN, props : BOOLEAN,
          cvars : BOOLEAN, attrs : Attrs, as : {"no", "own", "super"}, wrap : Wraps]
Super(n) == Cls(S0, n).mro
Sensible(c) == /\ (c.as = "super" => Len(Super(c.n)) > 1 /\ c.n # "Gone")   \* (methods are not dumped)
               /\ (c.as # "no" => c.wrap \in {"top", "list", "dict", "opt", "tuple"})
               /\ (c.wrap = "opt" => c.as # "no")

V(c) == Inst[c.n][c.i]
Hold(v) == <<"obj", "Hold", <<<<"_hp", IntV(4)>>, <<"hn", NONE>>, <<"one", v>>>>>>
VV(c) == CASE c.wrap \in {"top", "opt"} -> V(c)
           [] c.wrap = "list" -> <<"list", <<V(c)>>>>
           [] c.wrap = "dict" -> <<"dict", <<<<Str("_k"), V(c)>>, <<Str("n"), IntV(0)>>>>>>
           [] c.wrap = "tuple" -> <<"tuple", <<V(c)>>>>
           [] c.wrap = "nt" -> <<"nt", "Pair", <<V(c), IntV(1)>>>>
           [] c.wrap = "hold" -> Hold(V(c))
           [] c.wrap = "holdlist" -> Hold(<<"list", <<V(c)>>>>)
           [] c.wrap = "holdhold" -> Hold(Hold(V(c)))
As(c) == CASE c.as = "no" -> NOT [] c.as = "own" -> C(c.n) [] c.as = "super" -> C(Super(c.n)[2])
T(c) == LET t == As(c) IN
        IF t = NOT THEN NOT
        ELSE CASE c.wrap = "top" -> t
               [] c.wrap = "opt" -> <<"union", <<t, NT>>>>
               [] c.wrap = "list" -> <<"list", t>>
               [] c.wrap = "dict" -> <<"dict", <<"str">>, t>>
               [] c.wrap = "tuple" -> <<"tuplen", <<t>>>>
               [] OTHER -> NOT
K(c) == [K0 EXCEPT !.strict = c.strict, !.nulls = c.nulls, !.priv = c.priv, !.props = c.props, !.cvars = c.cvars,
                   !.attrs = c.attrs]
KJ(c) == [strict |-> c.strict, nulls |-> c.nulls, priv |-> c.priv, props |-> c.props, cvars |-> c.cvars,
          attrs |-> c.attrs]

VARIABLES c, done
vars == <<c, done>>
Init == /\ c \in (IF Export = 0 THEN Cases ELSE RandomSubset(Export, Cases))
        /\ Sensible(c)
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ (Export > 0 => PrintT(ToJson(<<"JWCASE", VV(c), T(c), KJ(c)>>)))
Spec == Init /\ [][Next]_vars

\* ---- every object in the value, the class as which it is dumped, and its dict in the result
R == DumpV(S0, VV(c), T(c), K(c))
At(d, key) == GetP(d[2], Str(key))
There(d, key) == HasP(d[2], Str(key))
(* (Strict, the elements of a sequence without type are of that of the first.) *)
Elem == IF As(c) = NOT /\ c.strict THEN C(c.n) ELSE As(c)
Objs == CASE c.wrap \in {"top", "opt"} -> {<<V(c), As(c), R.v>>}
          [] c.wrap \in {"list", "tuple"} -> {<<V(c), Elem, R.v[2][1]>>}
          [] c.wrap = "dict" -> {<<V(c), NOT, At(R.v, "_k")>>}     \* (as what they are)
          [] c.wrap = "nt" -> {<<V(c), NOT, At(R.v, "one")>>}
          [] c.wrap = "hold" -> {<<VV(c), NOT, R.v>>, <<V(c), NOT, At(R.v, "one")>>}
          [] c.wrap = "holdlist" -> {<<VV(c), NOT, R.v>>, <<V(c), Elem, At(R.v, "one")[2][1]>>}
          [] c.wrap = "holdhold" -> {<<VV(c), NOT, R.v>>, <<Hold(V(c)), NOT, At(R.v, "one")>>,
                                     <<V(c), NOT, At(At(R.v, "one"), "one")>>}
\* ---- the members
Own(v) == {v[3][i][1] : i \in 1..Len(v[3])}
PropsOf(n) == {Cls(S0, n).pr[i][1] : i \in 1..Len(Cls(S0, n).pr)}
VarsOf(n) == {Cls(S0, n).cv[i][1] : i \in 1..Len(Cls(S0, n).cv)} \cup {Cls(S0, n).slotvars[i] : i \in 1..Len(Cls(S0, n).slotvars)}
HintsOf(n) == {Cls(S0, n).an[i][1] : i \in 1..Len(Cls(S0, n).an)}
ValueOf(v, a) == AttrVal(Cls(S0, v[2]), v, a)     \* (a parameter is not necessarily an attribute)
(* Strict as a class: the members that the class knows of.                    *)
Members(v, t) == IF c.strict /\ t # NOT
                 THEN {a \in (IF Cls(S0, t[2]).slots THEN {} ELSE HintsOf(t[2])) \cup PropsOf(t[2]) \cup VarsOf(t[2]) :
                          ValueOf(v, a)[1] # "missing"}
                 ELSE Own(v) \cup PropsOf(v[2]) \cup VarsOf(v[2])
ClassOf(v, t) == IF c.strict /\ t # NOT THEN t[2] ELSE v[2]
IsPrivate(a) == StartsWith(a, "_")
Reasons(v, t, a) == {r \in {"private", "property", "variable", "named", "null"} :
    \/ r = "private" /\ c.priv /\ IsPrivate(a)
    \/ r = "property" /\ c.props /\ a \in PropsOf(ClassOf(v, t))
    \/ r = "variable" /\ c.cvars /\ a \in VarsOf(ClassOf(v, t))
    \/ r = "named" /\ (\E i \in 1..Len(c.attrs) : c.attrs[i] = a)
    \/ r = "null" /\ c.nulls /\ ValueOf(v, a) = NONE}
KeyOf(v, t, a) == IF Cls(S0, ClassOf(v, t)).k = "attrs" /\ ~c.priv THEN StripUnder(a) ELSE a
IsPlain(x) == x[1] \in {"int", "none", "str"}

Dumped == done => IsOk(R) /\ R.w = <<>>
Present == done => \A o \in Objs : \A a \in Members(o[1], o[2]) :
    (Reasons(o[1], o[2], a) = {}) =>
        /\ There(o[3], KeyOf(o[1], o[2], a))
        /\ (IsPlain(ValueOf(o[1], a)) => At(o[3], KeyOf(o[1], o[2], a)) = ValueOf(o[1], a))
Absent == done => \A o \in Objs : \A a \in Members(o[1], o[2]) :
    (Reasons(o[1], o[2], a) # {}) =>
        (~There(o[3], KeyOf(o[1], o[2], a)) \/ \E b \in Members(o[1], o[2]) :
            b # a /\ KeyOf(o[1], o[2], b) = KeyOf(o[1], o[2], a) /\ Reasons(o[1], o[2], b) = {})
NothingElse == done => \A o \in Objs : \A i \in 1..Len(o[3][2]) :
    \E a \in Members(o[1], o[2]) : o[3][2][i][1] = Str(KeyOf(o[1], o[2], a))
=============================================================================
