------------------------------- MODULE Params --------------------------------
(* Every class of the world (JW_WORLDS; all combinations of two parameters,  *)
(* see harness/bounded.py), with every combination of what the data has for  *)
(* its parameters (nothing, null, a fitting value, one that can be cast, one *)
(* that cannot) and of attr_getters.  TLC checks that what the specification *)
(* makes of it is what is claimed: data, getter, default, None, error.       *)
(* The cases are exported and replayed with the real code.                   *)
EXTENDS Registry, Json, IOUtils, Randomization

CONSTANTS Export
Worlds == ndJsonDeserialize(IOEnv.JW_WORLDS)
S0 == [w |-> Worlds[1], f |-> <<NewReg>>, ann |-> EmptyFcn, seen |-> FALSE]

Has == {"absent", "null", "int", "cast", "bad"}
JsonOf(h) == CASE h = "null" -> NONE [] h = "int" -> IntV(7) [] h = "cast" -> Str("7") [] h = "bad" -> Str("a")
GV == Str("gotten")
Ns == {n \in DOMAIN S0.w.c : Len(Cls(S0, n).ps) > 0}
Ps(n) == SelectSeq(Cls(S0, n).ps, LAMBDA p : p[4] \in {"p", "k"})

VARIABLES n, has, get, x, done
vars == <<n, has, get, x, done>>
Init == /\ n \in Ns
        /\ has \in [1..Len(Ps(n)) -> Has]
        /\ get \in (IF Cls(S0, n).k = "nt" THEN {{}} ELSE SUBSET {p \in 1..Len(Ps(n)) : has[p] = "absent"})
        /\ x \in {"absent", "int", "cast"}      \* a key that is no parameter
        /\ done = FALSE

RECURSIVE Pairs(_)
Pairs(i) == IF i > Len(Ps(n)) THEN (IF x = "absent" THEN <<>> ELSE <<<<Str("extra"), JsonOf(x)>>>>)
            ELSE (IF has[i] = "absent" THEN <<>> ELSE <<<<Str(Ps(n)[i][1]), JsonOf(has[i])>>>>) \o Pairs(i + 1)
RECURSIVE Getters(_)
Getters(i) == IF i > Len(Ps(n)) THEN <<>>
              ELSE (IF i \in get THEN <<<<Ps(n)[i][1], GV>>>> ELSE <<>>) \o Getters(i + 1)
J == <<"dict", Pairs(1)>>
K == [K0 EXCEPT !.getters = Getters(1)]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, has, get, x>>
        /\ (Export => PrintT(ToJson(<<"JWCASE", J, <<"cls", n>>, Getters(1)>>)))
Spec == Init /\ [][Next]_vars

\* ---- what a parameter gets: <<"v", value>> or <<"e", kind>>
MayNone(T) == T = NOT \/ T[1] = "union"
Conv(T, j) == CASE T = NOT -> <<"v", j>>
                [] j = NONE -> IF MayNone(T) THEN <<"v", NONE>> ELSE <<"e", "null">>
                [] j = Str("a") -> <<"e", "cast">>
                [] OTHER -> <<"v", IntV(7)>>
Gets(i) == LET p == Ps(n)[i] IN
           IF has[i] # "absent" THEN Conv(p[2], JsonOf(has[i]))
           ELSE IF i \in get THEN <<"v", GV>>
           ELSE IF p[3][1] = "val" THEN <<"v", p[3][2]>>
           ELSE IF MayNone(p[2]) THEN <<"v", NONE>>
           ELSE <<"e", "missing">>
Failing == {i \in 1..Len(Ps(n)) : Gets(i)[1] = "e"}
FirstFailing == CHOOSE i \in Failing : \A j \in Failing : i <= j
R == LoadV(S0, J, <<"cls", n>>, K)
IsNT == Cls(S0, n).k = "nt"
Fulfilled == done /\ Failing = {} =>
    /\ IsOk(R)
    /\ \A i \in 1..Len(Ps(n)) :
         (IF IsNT THEN R.v[3][i] ELSE GetP(R.v[3], Ps(n)[i][5])) = Gets(i)[2]
Unfulfilled == done /\ Failing # {} =>
    /\ IsErr(R)
    /\ LET i == FirstFailing e == Gets(i)[2] IN
       IF e = "missing" \/ (IsNT /\ e = "null") THEN R.k = "UnfulfilledArgumentError" /\ R.a = Ps(n)[i][1]
       ELSE R.k = "DeserializationError"
(* What is no parameter becomes an attribute, by its annotation.              *)
Extra == done /\ IsOk(R) /\ ~IsNT =>
    IF x = "absent" THEN ~HasP(R.v[3], "extra")
    ELSE LET an == Cls(S0, n).an IN
         /\ HasP(R.v[3], "extra") <=> ~Cls(S0, n).frozen /\ ~Cls(S0, n).slots
         /\ HasP(R.v[3], "extra") => GetP(R.v[3], "extra") = (IF HasP(an, "extra") THEN IntV(7) ELSE JsonOf(x))
OnlyThose == done /\ IsOk(R) /\ ~IsNT =>
    \A i \in 1..Len(R.v[3]) : R.v[3][i][1] = "extra" \/ \E p \in 1..Len(Ps(n)) : Ps(n)[p][5] = R.v[3][i][1]
=============================================================================
