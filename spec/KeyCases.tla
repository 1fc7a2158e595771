------------------------------ MODULE KeyCases -------------------------------
(* Dicts of up to N entries with the keys of every key type (JW_WORLDS: the   *)
(* key types and some keys of each, see harness/bounded.py), of one type or   *)
(* of two, with plain values, objects, null, or dicts with such keys again.   *)
(* TLC checks that every entry has its own place in what is dumped, that only *)
(* keys that are no JSON keys are stored separately, and that loading it      *)
(* restores every key and every value, whatever the hashes.                   *)
(* The cases are exported and replayed with the real code.                    *)
EXTENDS Registry, Json, IOUtils, Randomization, FiniteSets

CONSTANTS Export,    \* how many of the cases to print, 0: check all of them
          N, Wide
Worlds == ndJsonDeserialize(IOEnv.JW_WORLDS)
S0 == [w |-> Worlds[1], f |-> <<NewReg>>, ann |-> EmptyFcn, seen |-> FALSE]
Keys == Worlds[1].keys       \* <<type, keys>>, of which every two have different dumped forms
KTs == 1..Len(Keys)

Vals == {"int", "null", "obj", "nest"} \cup (IF Wide THEN {"list", "date"} ELSE {})
Cases == [a : KTs, b : KTs, s : {x \in SUBSET (1..N) : TRUE}, val : Vals, wrap : {"top", "list", "tuple", "opt"},
          mixed : BOOLEAN, nulls : BOOLEAN]
Sensible(c) == /\ \A i \in c.s : i <= Len(Keys[c.a][2])
               /\ (c.mixed => c.wrap \in {"top", "list"} /\ Len(Keys[c.b][2]) > 0 /\ c.a # c.b)
               /\ (c.val # "nest" /\ ~c.mixed => c.b = 1)       \* (not used)
               /\ (c.nulls => c.val = "null")

VARIABLES c, done
vars == <<c, done>>
RECURSIVE SetSeq(_, _)
SetSeq(s, i) == IF i > N THEN <<>> ELSE (IF i \in s THEN <<i>> ELSE <<>>) \o SetSeq(s, i + 1)
KeysOf(t, s) == LET is == SetSeq(s, 1) IN [i \in 1..Len(is) |-> Keys[t][2][is[i]]]
Small(i) == <<"obj", "Small", <<<<"first_name", NONE>>, <<"x", IntV(i)>>>>>>
Nest(i) == LET ks == Keys[c.b][2] IN
           <<"dict", [j \in 1..(IF i > Len(ks) THEN Len(ks) ELSE i) |-> <<ks[j], IntV(i)>>]>>
Val(i) == CASE c.val = "int" -> IntV(i)
            [] c.val = "null" -> (IF i % 2 = 0 THEN NONE ELSE IntV(i))
            [] c.val = "obj" -> Small(i)
            [] c.val = "list" -> <<"list", <<IntV(i), IntV(0)>>>>
            [] c.val = "date" -> <<"date", 2020, 1, i>>
            [] c.val = "nest" -> Nest(i)
ValT == CASE c.val = "int" -> <<"int">>
          [] c.val = "null" -> <<"union", <<<<"int">>, NT>>>>
          [] c.val = "obj" -> <<"cls", "Small">>
          [] c.val = "list" -> <<"list", <<"int">>>>
          [] c.val = "date" -> <<"date">>
          [] c.val = "nest" -> <<"dict", Keys[c.b][1], <<"int">>>>
DictV == LET ks == KeysOf(c.a, c.s) \o (IF c.mixed THEN Keys[c.b][2] ELSE <<>>) IN
         <<"dict", [i \in 1..Len(ks) |-> <<ks[i], Val(i)>>]>>
DictT == <<"dict", Keys[c.a][1], ValT>>
V == CASE c.wrap \in {"top", "opt"} -> DictV
       [] c.wrap = "list" -> <<"list", <<DictV>>>>
       [] c.wrap = "tuple" -> <<"tuple", <<DictV, IntV(1)>>>>
T == CASE c.wrap = "top" -> DictT
       [] c.wrap = "opt" -> <<"union", <<DictT, NT>>>>
       [] c.wrap = "list" -> <<"list", DictT>>
       [] c.wrap = "tuple" -> <<"tuplen", <<DictT, <<"int">>>>>>

Init == /\ c \in (IF Export = 0 THEN Cases ELSE RandomSubset(Export, Cases))
        /\ Sensible(c)
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ (Export > 0 => PrintT(ToJson(<<"JWCASE", V, T, c.mixed, c.nulls>>)))
Spec == Init /\ [][Next]_vars

R == DumpV(S0, V, NOT, [K0 EXCEPT !.nulls = c.nulls])
DictIn(v) == CASE c.wrap \in {"top", "opt"} -> v [] OTHER -> v[2][1]
Native(k) == k[1] \in JsonKeyTags
Form(k) == DumpV(S0, k, NOT, [K0 EXCEPT !.nulls = c.nulls]).v
Left(p) == ~(c.nulls /\ p[2] = NONE)     \* the entries that are to be there
Entries == SelectSeq(DictV[2], Left)
Hashed(d) == IF d[1] = "hdict" THEN d[3] ELSE <<>>
Dumped == done => IsOk(R)
OwnPlace == done => LET d == DictIn(R.v) IN
    /\ Len(d[2]) + Len(Hashed(d)) = Len(Entries)
    /\ \A i \in 1..Len(Entries) :
         LET f == Form(Entries[i][1])  v == DumpV(S0, Entries[i][2], NOT, K0).v IN
         IF Native(Entries[i][1]) THEN HasP(d[2], Entries[i][1]) /\ GetP(d[2], Entries[i][1]) = v
         ELSE IF Native(f) THEN HasP(d[2], f) /\ GetP(d[2], f) = v
         ELSE \E j \in 1..Len(Hashed(d)) : Hashed(d)[j] = <<f, v>>

(* The hashes are any numbers that are no other key of the dict.              *)
RECURSIVE Real(_, _)
Real(x, h0) ==
    CASE x[1] = "list" -> <<"list", [i \in 1..Len(x[2]) |-> Real(x[2][i], h0)]>>
      [] x[1] = "dict" -> <<"dict", [i \in 1..Len(x[2]) |-> <<x[2][i][1], Real(x[2][i][2], h0)>>]>>
      [] x[1] = "hdict" ->
           <<"dict", [i \in 1..Len(x[2]) |-> <<x[2][i][1], Real(x[2][i][2], h0)>>]
                     \o <<<<Str("-keys"), <<"dict", [i \in 1..Len(x[3]) |-> <<IntV(h0 + i), Real(x[3][i][1], h0)>>]>>>>>>
                     \o [i \in 1..Len(x[3]) |-> <<IntV(h0 + i), Real(x[3][i][2], h0)>>]>>
      [] OTHER -> x
L(h0) == LoadV(S0, Real(R.v, h0), T, K0)
Restored == done /\ ~c.mixed /\ ~c.nulls =>
    \A h0 \in {0, 2000} : IsOk(L(h0)) /\ Match(V, L(h0).v)
=============================================================================
