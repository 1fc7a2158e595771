-------------------------------- MODULE Metas --------------------------------
(* Which class counts: every combination of an explicit class, the names in  *)
(* the -meta of an object, of the object in it and of the object in that,    *)
(* with or without paths, and the type hints (the world: see                 *)
(* harness/bounded.py).  TLC checks that what the specification loads has    *)
(* the class of the first source that names one, at all three levels, and    *)
(* that a name that cannot be resolved is an UnknownClassError.              *)
(* The cases are exported and replayed with the real code.                   *)
EXTENDS Registry, Json, IOUtils, Randomization

CONSTANTS Export,    \* how many of the cases to print, 0: check all of them
          Wide
Worlds == ndJsonDeserialize(IOEnv.JW_WORLDS)
C(n) == <<"cls", n>>
S0 == [w |-> Worlds[1], f |-> <<NewReg>>, ann |-> ("my.Alias" :> C("Sub")), seen |-> FALSE]

No == ""
Nope == "no.Such"
Q(n) == IF n \in {"", Nope, "my.Alias", "metas.Hidden"} THEN n ELSE "metas." \o n
Leafs == {No, "Sub", "Other", Nope} \cup (IF Wide THEN {"my.Alias", "metas.Hidden"} ELSE {})
Mids == {No, "MBase", "MNone", "MRest", Nope} \cup (IF Wide THEN {"MObj", "MOpt"} ELSE {})
Tops == {No, "TBase", "TNone", Nope} \cup (IF Wide THEN {"TObj"} ELSE {})
(* the hint that the class of the holder has for the one in it                *)
HintOf(h) == CASE h \in {"MBase", "MOpt"} -> "Base" [] h = "TBase" -> "MBase" [] OTHER -> No

Cases == [wrap : {"top", "list", "dict"} \cup (IF Wide THEN {"opt"} ELSE {}),
          T : {No, "object", "TBase", "TNone"},
          r0 : Tops,            \* the -meta at the top: "/", "/one", "/one/one"
          r1 : Mids, r2 : Leafs,
          mm : BOOLEAN,         \* has the object in it a -meta (of its own classes)?
          m0 : Mids, m1 : Leafs,
          l0 : Leafs]
Sensible(c) == /\ (~c.mm => c.m0 = No /\ c.m1 = No)
               /\ (c.mm => c.m0 # No \/ c.m1 # No)
               /\ (c.wrap # "top" => c.T # No)
               /\ (c.wrap = "opt" => c.T # "object")

P(k, v) == <<Str(k), v>>
D(s) == <<"dict", s>>
Named(ps) == SelectSeq(ps, LAMBDA p : p[2] # Str(No))
MetaP(ps) == IF Named(ps) = <<>> THEN <<>> ELSE <<P("-meta", D(<<P("classes", D(Named(ps)))>>))>>
Leaf(c) == D(<<P("x", IntV(1))>> \o MetaP(<<P("/", Str(Q(c.l0)))>>))
Mid(c) == D(<<P("one", Leaf(c))>> \o MetaP(<<P("/", Str(Q(c.m0))), P("/one", Str(Q(c.m1)))>>))
Top(c) == D(<<P("one", Mid(c))>> \o MetaP(<<P("/", Str(Q(c.r0))), P("/one", Str(Q(c.r1))), P("/one/one", Str(Q(c.r2)))>>))
AsT(t) == IF t = No THEN NOT ELSE IF t = "object" THEN <<"object">> ELSE C(t)
J(c) == CASE c.wrap \in {"top", "opt"} -> Top(c)
          [] c.wrap \in {"list", "tuple"} -> <<"list", <<Top(c)>>>>
          [] c.wrap = "dict" -> D(<<P("k", Top(c))>>)
TT(c) == CASE c.wrap = "top" -> AsT(c.T)
           [] c.wrap = "opt" -> <<"union", <<AsT(c.T), NT>>>>
           [] c.wrap = "list" -> <<"list", AsT(c.T)>>
           [] c.wrap = "tuple" -> <<"tuplee", AsT(c.T)>>
           [] c.wrap = "dict" -> <<"dict", <<"str">>, AsT(c.T)>>

\* ------------------------------------------------- what is expected -------
Given(c) == IF c.T \in {No, "object"} THEN No ELSE c.T
FirstOf(ns) == LET is == {i \in 1..Len(ns) : ns[i] # No} IN
               IF is = {} THEN No ELSE ns[CHOOSE i \in is : \A j \in is : i <= j]
(* An explicit class precedes the -meta; a hint (of an element) does not.     *)
TopC(c) == IF c.wrap \in {"top", "opt"} THEN FirstOf(<<Given(c), c.r0>>) ELSE FirstOf(<<c.r0, Given(c)>>)
(* As a dict (there is no class for the one that holds it), the paths of its  *)
(* -meta concern nothing, and what it holds has no hint.                      *)
MidC(c) == IF TopC(c) = No THEN c.m0 ELSE FirstOf(<<c.m0, c.r1, HintOf(TopC(c))>>)
(* The nearest -meta that holds any classes decides about the paths.          *)
PathOf(c) == IF c.mm THEN c.m1 ELSE IF TopC(c) = No THEN No ELSE c.r2
(* (What is neither a parameter nor annotated, and of which no path names a   *)
(* class, stays as it is.)                                                    *)
Raw(c) == MidC(c) = "MRest" /\ PathOf(c) = No
LeafC(c) == IF MidC(c) = No THEN c.l0 ELSE IF Raw(c) THEN No ELSE FirstOf(<<c.l0, PathOf(c), HintOf(MidC(c))>>)
Unknown == {Nope, "metas.Hidden"}
(* Every name that is looked at                                               *)
Looked(c) == {c.r0, c.m0} \cup (IF Raw(c) THEN {} ELSE {c.l0})
               \cup (IF TopC(c) # No THEN {c.r1} ELSE {})
               \cup (IF MidC(c) # No THEN {PathOf(c)} ELSE {})
Bad(c) == Looked(c) \cap Unknown # {}
Real(n) == IF n = "my.Alias" THEN "Sub" ELSE n

\* ------------------------------------------------- what comes out ---------
ClsIn(v) == IF v[1] = "obj" THEN v[2] ELSE IF v[1] = "dict" THEN No ELSE "?"
OneIn(v) == IF v[1] = "obj" THEN GetP(v[3], "one") ELSE GetP(v[2], Str("one"))
Inner(c, v) == CASE c.wrap \in {"top", "opt"} -> v
                 [] c.wrap \in {"list", "tuple"} -> v[2][1]
                 [] c.wrap = "dict" -> v[2][1][2]

VARIABLES c, done
vars == <<c, done>>
Init == /\ c \in (IF Export = 0 THEN {x \in Cases : Sensible(x)} ELSE {x \in RandomSubset(Export, Cases) : Sensible(x)})
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ (Export # 0 => PrintT(ToJson(<<"JWCASE", J(c), TT(c)>>)))
Spec == Init /\ [][Next]_vars

R == LoadV(S0, J(c), TT(c), K0)
UnknownIsError == done /\ Bad(c) => /\ IsErr(R)
                                    /\ c.wrap \notin {"list", "opt"} => R.k = "UnknownClassError"
ByPrecedence == done /\ ~Bad(c) =>
    /\ IsOk(R)
    /\ LET t == Inner(c, R.v) m == OneIn(t) l == OneIn(m) IN
       /\ ClsIn(t) = Real(TopC(c))
       /\ ClsIn(m) = Real(MidC(c))
       /\ ClsIn(l) = Real(LeafC(c))
=============================================================================
