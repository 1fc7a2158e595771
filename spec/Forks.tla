-------------------------------- MODULE Forks --------------------------------
(* Every history of registrations, suppressions and forks up to a bounded    *)
(* length.  TLC checks that what Registry and Codec make of it is what is     *)
(* claimed: a change of one fork concerns no other, a new fork is a snapshot, *)
(* and which function counts is what the history says (a definition apart    *)
(* from the priority lists of Registry).                                     *)
(* The histories are exported and replayed with the real code.               *)
EXTENDS Registry, Json, IOUtils

CONSTANTS Kinds,     \* of {"setser", "setdes", "setval", "suppress", "suppresscode", "fork"}
          MaxLen, MaxForks,
          Export
Worlds == ndJsonDeserialize(IOEnv.JW_WORLDS)
S(reg) == [w |-> Worlds[1], f |-> reg, ann |-> EmptyFcn, seen |-> FALSE]

C(n) == <<"cls", n>>
(* Base, Mid (Base), Leaf (Mid, Side), Side: see harness/bounded.py           *)
Targets == {<<C("Base")>>, <<C("Mid")>>, <<C("Side")>>, <<C("Leaf")>>, <<C("Side"), C("Base")>>, <<<<"int">>>>}
Classes == {C("Base"), C("Mid"), C("Side"), C("Leaf")}
Asked == Classes \cup {<<"int">>, <<"bool">>, <<"float">>}

VARIABLES reg, hist
vars == <<reg, hist>>
Init == reg = <<NewReg>> /\ hist = <<>>
Fn(k, n) == (CASE k = "setser" -> "s" [] k = "setdes" -> "d" [] OTHER -> "v") \o ToString(n)
Put_(e, r) == /\ reg' = r
              /\ hist' = Append(hist, e)
              /\ (Export /\ Len(hist') = MaxLen => PrintT(ToJson(<<"JWHIST", hist'>>)))
N == Len(hist) + 1
SetFn(k, f, Ts, hi) ==
    /\ k \in Kinds
    /\ LET e == [op |-> k, f |-> f, Ts |-> Ts, fn |-> Fn(k, N), hi |-> hi]
           r == CASE k = "setser" -> RegSetSer(reg, f, Ts, e.fn, hi, FALSE)
                  [] k = "setdes" -> RegSetDes(reg, f, Ts, e.fn, hi, FALSE)
                  [] k = "setval" -> RegSetVal(reg, f, Ts, e.fn)
       IN Put_(e, r)
Fork(f) == /\ "fork" \in Kinds
           /\ Len(reg) < MaxForks
           /\ Put_([op |-> "fork", f |-> f], RegFork(reg, f))
Suppress(f, b) == "suppress" \in Kinds /\ Put_([op |-> "suppress", f |-> f, val |-> b], RegSuppress(reg, f, b))
Code == "datetime-without-tz"
SuppressCode(f) == /\ "suppresscode" \in Kinds
                   /\ Put_([op |-> "suppresscode", f |-> f, code |-> Code], RegSuppressCode(reg, f, Code))
Next == /\ Len(hist) < MaxLen
        /\ \E f \in 1..Len(reg) :
             \/ \E k \in {"setser", "setdes"}, Ts \in Targets, hi \in BOOLEAN : SetFn(k, f, Ts, hi)
             \/ \E Ts \in Targets : SetFn("setval", f, Ts, TRUE)
             \/ \E b \in BOOLEAN : Suppress(f, b)
             \/ SuppressCode(f)
             \/ Fork(f)
Spec == Init /\ [][Next]_vars

\* --- what a fork is, by the history: the events of its ancestors up to the
\* moment of the fork, and its own
RECURSIVE ForksUpTo(_), OwnEvents(_, _, _)
ForksUpTo(n) == IF n = 0 THEN 1 ELSE ForksUpTo(n - 1) + (IF hist[n].op = "fork" THEN 1 ELSE 0)
Born(f) == IF f = 1 THEN 0 ELSE CHOOSE n \in 1..Len(hist) : hist[n].op = "fork" /\ ForksUpTo(n) = f
OwnEvents(f, from, to) ==
    IF from > to THEN <<>>
    ELSE (IF hist[from].op # "fork" /\ hist[from].f = f THEN <<hist[from]>> ELSE <<>>) \o OwnEvents(f, from + 1, to)
RECURSIVE Lineage(_, _)
Lineage(f, to) == LET b == Born(f) IN
                  (IF f = 1 THEN <<>> ELSE Lineage(hist[b].f, b - 1)) \o OwnEvents(f, b + 1, to)
Events(f) == Lineage(f, Len(hist))

\* --- which function counts for T, by the events
Of(evs, k) == SelectSeq(evs, LAMBDA e : e.op = k)
Exactly(e, T) == \E i \in 1..Len(e.Ts) : e.Ts[i] = T
LastExact(evs, T) == LET is == {i \in 1..Len(evs) : Exactly(evs[i], T)} IN
                     IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
Super(T, U) == IF T[1] = "cls" THEN U[1] = "cls" /\ U[2] \in MroOf(S(reg), T[2])
               ELSE T = U \/ (T = <<"bool">> /\ U = <<"int">>)
(* The superclass that was registered with high priority most recently (in    *)
(* one registration: the last one counts), with the function that was         *)
(* registered for it most recently, with whatever priority.                   *)
Moments(evs, T) == {p \in (1..Len(evs)) \X (1..2) :
                      /\ evs[p[1]].hi /\ p[2] <= Len(evs[p[1]].Ts) /\ Super(T, evs[p[1]].Ts[p[2]])}
Later(p, q) == p[1] > q[1] \/ (p[1] = q[1] /\ p[2] >= q[2])
BySuper(evs, T) ==
    LET ms == Moments(evs, T) IN
    IF ms = {} THEN ""
    ELSE LET m == CHOOSE p \in ms : \A q \in ms : Later(p, q) IN
         evs[LastExact(evs, evs[m[1]].Ts[m[2]])].fn
WhichFn(evs, T, natural) ==
    LET n == LastExact(evs, T) IN
    IF n # 0 THEN evs[n].fn ELSE IF T \in natural THEN "" ELSE BySuper(evs, T)
(* Validators: the superclass that was registered first counts.               *)
WhichVal(evs, T) ==
    LET n == LastExact(evs, T)
        ms == Moments(evs, T)
    IN IF n # 0 THEN evs[n].fn
       ELSE IF ms = {} THEN ""
       ELSE LET m == CHOOSE p \in ms : \A q \in ms : Later(q, p) IN
            evs[LastExact(evs, evs[m[1]].Ts[m[2]])].fn
Builtin == {<<"int">>, <<"bool">>, <<"float">>}
Name(g) == IF g.c THEN g.fn ELSE ""

SerByHistory == \A f \in 1..Len(reg), T \in Asked :
                  Name(GetSer(S(reg), f, T, FALSE)) = WhichFn(Of(Events(f), "setser"), T, Builtin)
DesByHistory == \A f \in 1..Len(reg), T \in Asked :
                  Name(GetDes(S(reg), f, T, FALSE)) = WhichFn(Of(Events(f), "setdes"), T, Builtin)
ValByHistory == \A f \in 1..Len(reg), T \in Asked :
                  GetVal(S(reg), f, T) = WhichVal(Of(Events(f), "setval"), T)
WarnByHistory ==
    \A f \in 1..Len(reg) :
      LET evs == Events(f)
          sups == Of(evs, "suppress")
          off == \/ Len(sups) > 0 /\ sups[Len(sups)].val
                 \/ Len(Of(evs, "suppresscode")) > 0
      IN (Warned(S(reg), f, Code) = <<>>) = off
(* A step changes the fork that it concerns, and nothing else.                *)
Isolation == [][\A f \in 1..Len(reg) :
                  \/ reg'[f] = reg[f]
                  \/ hist'[Len(hist')].op # "fork" /\ hist'[Len(hist')].f = f]_vars
Snapshot == [][Len(reg') > Len(reg) => reg'[Len(reg')] = reg'[hist'[Len(hist')].f]]_vars
=============================================================================
