------------------------------ MODULE Failures ------------------------------
(* What happens to failures.                                                  *)
(* Loading: containers of containers of leafs, in which any of the leafs may  *)
(* be wrong in one of several ways.  Dumping: objects of which any of the     *)
(* attributes may fail, directly or deep inside.                              *)
(* TLC checks that a load succeeds iff nothing is wrong, that the first       *)
(* failure in the order of the document is the one that is described, with    *)
(* the index in every list around it, and the value, type and parameter that  *)
(* are at fault; that warn_on_fail drops the elements with a failure, each    *)
(* with a warning, and nothing else; and that dumping leaves out what fails,  *)
(* each with a warning, and nothing else, unless it is strict.                *)
(* The cases are exported and replayed with the real code.                    *)
EXTENDS Registry, Json, IOUtils, Randomization

CONSTANTS Export,    \* how many of the cases to print, 0: check all of them
          MaxOut, MaxIn,
          Wide
Worlds == ndJsonDeserialize(IOEnv.JW_WORLDS)
C(n) == <<"cls", n>>
Reg0 == RegSetSer(<<NewReg>>, 1, <<C("Broken")>>, "sx", TRUE, FALSE)
S0 == [w |-> Worlds[1], f |-> Reg0, ann |-> EmptyFcn, seen |-> FALSE]

\* ------------------------------------------------------------------ loading
Leafs == {"int", "Small"} \cup (IF Wide THEN {"opt"} ELSE {})
Ways(lt) == CASE lt = "int" -> {"ok", "bad", "null"}
              [] lt = "opt" -> {"ok", "bad", "none"}
              [] lt = "Small" -> {"ok", "bad", "null", "miss"}
LeafT(lt) == CASE lt = "int" -> <<"int">>
               [] lt = "opt" -> <<"union", <<<<"int">>, NT>>>>
               [] lt = "Small" -> C("Small")
LeafJ(lt, way, n) ==
    CASE way \in {"null", "none"} -> NONE
      [] lt \in {"int", "opt"} -> (IF way = "ok" THEN IntV(n) ELSE Str("x" \o ToString(n)))
      [] way = "miss" -> <<"dict", <<<<Str("first_name"), Str("m" \o ToString(n))>>>>>>
      [] OTHER -> <<"dict", <<<<Str("x"), IF way = "ok" THEN IntV(n) ELSE Str("x" \o ToString(n))>>>>>>
LeafV(lt, way, n) ==
    CASE way \in {"null", "none"} -> NONE
      [] lt \in {"int", "opt"} -> IntV(n)
      [] OTHER -> <<"obj", "Small", <<<<"x", IntV(n)>>, <<"first_name", NONE>>>>>>
(* How the failure of a leaf is described: kind, parameter, value, type.      *)
LeafE(lt, way, n) ==
    CASE way = "miss" -> <<"UnfulfilledArgumentError", "x", LeafJ(lt, way, n), C("Small")>>
      [] way = "bad" /\ lt = "Small" -> <<"DeserializationError", "", Str("x" \o ToString(n)), <<"int">>>>
      [] OTHER -> <<"DeserializationError", "", LeafJ(lt, way, n), LeafT(lt)>>
OkWay(way) == way \in {"ok", "none"}

Inner == {"list", "dict", "tuple", "pair"}
Outer == {"list", "dict", "tuple", "box"}
Up(n, X) == UNION {[1..m -> X] : m \in 0..n}
Fixed(k) == k \in {"pair", "box"}
PlansOf(o, i, lt, warn) ==
    LET ins == IF Fixed(i) THEN [1..2 -> Ways(lt)] ELSE Up(MaxIn, Ways(lt))
        outs == IF Fixed(o) THEN [1..2 -> ins] ELSE Up(MaxOut, ins)
    IN [o : {o}, i : {i}, lt : {lt}, warn : {warn}, f : outs]

\* ------------------------------------------------------------------ dumping
Kinds == {"ok", "broken", "inlist", "indict", "intuple", "nested", "deep"}
DPlans == [as : [1..3 -> Kinds], top : {"top", "list", "dict", "attr"}, strict : BOOLEAN, nulls : BOOLEAN]
Rec3(a, b, c) == <<"obj", "Rec", <<<<"a", a>>, <<"b", b>>, <<"c", c>>>>>>
Broken == <<"obj", "Broken", <<<<"x", IntV(0)>>>>>>
AV(k, n) == CASE k = "ok" -> (IF n = 2 THEN NONE ELSE IntV(n))
              [] k = "broken" -> Broken
              [] k = "inlist" -> <<"list", <<IntV(1), Broken>>>>
              [] k = "indict" -> <<"dict", <<<<Str("k"), Broken>>>>>>
              [] k = "intuple" -> <<"tuple", <<Broken, IntV(1)>>>>
              [] k = "nested" -> Rec3(IntV(1), Broken, NONE)
              [] k = "deep" -> <<"list", <<Rec3(IntV(1), NONE, Rec3(Broken, IntV(2), Broken))>>>>
D(ps) == <<"dict", ps>>
P(k, v) == <<Str(k), v>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
(* What is dumped of the attribute: the entry, or none.                       *)
Null(a, nulls) == IF nulls THEN <<>> ELSE <<P(a, NONE)>>
AD(k, n, a, nulls) ==
    CASE k = "ok" -> (IF n = 2 THEN Null(a, nulls) ELSE <<P(a, IntV(n))>>)
      [] k \in {"broken", "inlist", "indict", "intuple"} -> <<>>
      [] k = "nested" -> <<P(a, D(<<P("a", IntV(1))>> \o Null("c", nulls)))>>
      [] k = "deep" -> <<P(a, <<"list", <<D(<<P("a", IntV(1))>> \o Null("b", nulls)
                                            \o <<P("c", D(<<P("b", IntV(2))>>))>>)>>>>)>>
AW(k) == CASE k = "ok" -> 0 [] k = "deep" -> 2 [] OTHER -> 1
Names3 == <<"a", "b", "c">>

VARIABLES what, c, done
vars == <<what, c, done>>
Some(n, X) == IF Export = 0 THEN X ELSE RandomSubset(n, X)
Init == /\ done = FALSE
        /\ \/ /\ what = "load"
              /\ \E o \in Outer, i \in Inner, lt \in Leafs, warn \in BOOLEAN :
                   c \in Some(Export, PlansOf(o, i, lt, warn))
           \/ /\ what = "dump"
              /\ c \in Some(Export * 20, DPlans)

\* --- the JSON, the type and the value of a plan
N(a, b) == 10 * a + b
Key(a) == Str("k" \o ToString(a))
InJ(a) == LET f == c.f[a]  es == [b \in 1..Len(f) |-> LeafJ(c.lt, f[b], N(a, b))] IN
          CASE c.i \in {"list", "tuple"} -> <<"list", es>>
            [] c.i = "dict" -> <<"dict", [b \in 1..Len(f) |-> <<Key(b), es[b]>>]>>
            [] c.i = "pair" -> <<"dict", <<<<Str("y"), es[2]>>, <<Str("x"), es[1]>>>>>>
InT == LET T == LeafT(c.lt) IN
       CASE c.i = "list" -> <<"list", T>> [] c.i = "tuple" -> <<"tuplee", T>>
         [] c.i = "dict" -> <<"dict", <<"str">>, T>> [] c.i = "pair" -> C("Pair" \o c.lt)
J == LET es == [a \in 1..Len(c.f) |-> InJ(a)] IN
     CASE c.o \in {"list", "tuple"} -> <<"list", es>>
       [] c.o = "dict" -> <<"dict", [a \in 1..Len(es) |-> <<Key(a), es[a]>>]>>
       [] c.o = "box" -> <<"dict", <<<<Str("y"), es[2]>>, <<Str("x"), es[1]>>>>>>
T0 == CASE c.o = "list" -> <<"list", InT>> [] c.o = "tuple" -> <<"tuplee", InT>>
        [] c.o = "dict" -> <<"dict", <<"str">>, InT>> [] c.o = "box" -> C("Box" \o c.i \o c.lt)

WarnOuter == c.warn /\ c.o = "list"
WarnInner == c.warn /\ c.o # "list" /\ c.i = "list"
Bads(a) == {b \in 1..Len(c.f[a]) : ~OkWay(c.f[a][b])}
Hit == {a \in 1..Len(c.f) : Bads(a) # {}}
Fails == Hit # {} /\ ~WarnOuter /\ ~WarnInner
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
FirstA == Min(Hit)
FirstB == Min(Bads(FirstA))
Path == (IF c.o = "list" THEN <<FirstA - 1>> ELSE <<>>) \o (IF c.i = "list" THEN <<FirstB - 1>> ELSE <<>>)
FirstE == LeafE(c.lt, c.f[FirstA][FirstB], N(FirstA, FirstB))

RECURSIVE Keep(_, _, _)
Keep(n, i, s) == IF i > n THEN <<>> ELSE (IF i \in s THEN <<i>> ELSE <<>>) \o Keep(n, i + 1, s)
InV(a) == LET f == c.f[a]
              is == Keep(Len(f), 1, IF WarnInner THEN (1..Len(f)) \ Bads(a) ELSE 1..Len(f))
              es == [b \in 1..Len(is) |-> LeafV(c.lt, f[is[b]], N(a, is[b]))]
          IN CASE c.i = "list" -> <<"list", es>> [] c.i = "tuple" -> <<"tuple", es>>
               [] c.i = "dict" -> <<"dict", [b \in 1..Len(f) |-> <<Key(b), es[b]>>]>>
               [] c.i = "pair" -> <<"obj", "Pair" \o c.lt, <<<<"x", es[1]>>, <<"y", es[2]>>>>>>
Val == LET is == Keep(Len(c.f), 1, IF WarnOuter THEN (1..Len(c.f)) \ Hit ELSE 1..Len(c.f))
           es == [a \in 1..Len(is) |-> InV(is[a])]
       IN CASE c.o = "list" -> <<"list", es>> [] c.o = "tuple" -> <<"tuple", es>>
            [] c.o = "dict" -> <<"dict", [a \in 1..Len(es) |-> <<Key(a), es[a]>>]>>
            [] c.o = "box" -> <<"obj", "Box" \o c.i \o c.lt, <<<<"x", es[1]>>, <<"y", es[2]>>>>>>
RECURSIVE SumBads(_)
SumBads(a) == IF a > Len(c.f) THEN 0 ELSE Cardinality(Bads(a)) + SumBads(a + 1)
Warns == IF WarnOuter THEN Cardinality(Hit) ELSE IF WarnInner THEN SumBads(1) ELSE 0

\* --- the value that is dumped
Obj == Rec3(AV(c.as[1], 1), AV(c.as[2], 2), AV(c.as[3], 3))
DV == CASE c.top = "top" -> Obj
        [] c.top = "list" -> <<"list", <<Obj>>>>
        [] c.top = "dict" -> D(<<P("k", Obj)>>)
        [] c.top = "attr" -> Rec3(IntV(1), IntV(2), Obj)
DObj == D(Cat([n \in 1..3 |-> AD(c.as[n], n, Names3[n], c.nulls)]))
DD == CASE c.top = "top" -> DObj
        [] c.top = "list" -> <<"list", <<DObj>>>>
        [] c.top = "dict" -> D(<<P("k", DObj)>>)
        [] c.top = "attr" -> D(<<P("a", IntV(1)), P("b", IntV(2)), P("c", DObj)>>)
DWarns == AW(c.as[1]) + AW(c.as[2]) + AW(c.as[3])

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<what, c>>
        /\ (Export > 0 => PrintT(ToJson(IF what = "load" THEN <<"JWCASE", "load", J, T0, c.warn>>
                                        ELSE <<"JWCASE", "dump", DV, c.strict, c.nulls>>)))
Spec == Init /\ [][Next]_vars

LR == LoadV(S0, J, T0, [K0 EXCEPT !.warn = c.warn])
DR == DumpV(S0, DV, NOT, [K0 EXCEPT !.strict = c.strict, !.nulls = c.nulls])
IsLoad == done /\ what = "load"
IsDump == done /\ what = "dump"
LoadFails == IsLoad => (IsErr(LR) <=> Fails) /\ (IsOk(LR) <=> ~Fails)
Described == IsLoad /\ Fails =>
    /\ LR.i = Path
    /\ LR.k = (IF Path = <<>> THEN FirstE[1] ELSE "DeserializationError")
    /\ (Path = <<>> => LR.a = FirstE[2])
    /\ LR.s = FirstE[3] /\ LR.g = FirstE[4]
LoadedRest == IsLoad /\ ~Fails => Match(Val, LR.v)
LoadWarns == IsLoad /\ ~Fails => LR.w = [x \in 1..Warns |-> "element-not-deserialized"]
DumpFails == IsDump => (IsErr(DR) <=> c.strict /\ DWarns > 0) /\ (IsOk(DR) <=> ~(c.strict /\ DWarns > 0))
DumpedRest == IsDump /\ IsOk(DR) => Match(DD, DR.v)
DumpWarns == IsDump /\ IsOk(DR) => DR.w = [x \in 1..DWarns |-> "attribute-not-serialized"]
=============================================================================
